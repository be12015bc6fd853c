-------------------------------- MODULE Probe --------------------------------
(* Telling the type of a file by its first bytes: as many bytes as the magic   *)
(* has are read, however the system splits the reads, and compared.            *)
EXTENDS Integers, Sequences

CONSTANTS Files(_)      \* [bytes, kind] of a run; kind: "file", "dir" or "missing"
VARIABLES run, asked,   \* "idx" or "sub": the type that is being asked for
          got,          \* bytes read so far
          ans, phase
probeVars == <<run, asked, got, ans, phase>>

IdxMagic == <<35, 32, 86, 111, 98, 83, 117, 98, 32, 105, 110, 100, 101, 120, 32, 102, 105, 108, 101>>  \* # VobSub index file
SubMagic == <<0, 0, 1, 186>>
Magic == IF asked = "idx" THEN IdxMagic ELSE SubMagic
B == Files(run).bytes

ProbeInitAt(r, p) == run = r /\ asked \in {"idx", "sub"} /\ got = <<>> /\ ans = "none" /\ phase = p
Open ==
    /\ phase = "closed"
    /\ IF Files(run).kind = "missing" THEN phase' = "answered" /\ ans' = "err"
       ELSE phase' = "reading" /\ UNCHANGED ans
    /\ UNCHANGED <<run, asked, got>>
Read ==
    /\ phase = "reading" /\ Len(got) < Len(Magic)
    /\ IF Files(run).kind = "dir" \/ Len(got) = Len(B)
       THEN phase' = "answered" /\ ans' = "err" /\ UNCHANGED got
       ELSE /\ \E k \in 1..(Len(Magic) - Len(got)) :
                  Len(got) + k <= Len(B) /\ got' = SubSeq(B, 1, Len(got) + k)
            /\ UNCHANGED <<phase, ans>>
    /\ UNCHANGED <<run, asked>>
Compare ==
    /\ phase = "reading" /\ Len(got) = Len(Magic)
    /\ ans' = IF got = Magic THEN "yes" ELSE "no"
    /\ phase' = "answered"
    /\ UNCHANGED <<run, asked, got>>
ProbeNext == Open \/ Read \/ Compare

(* What a file is: the meaning, without reading. *)
Begins(m) == Len(B) >= Len(m) /\ SubSeq(B, 1, Len(m)) = m
Is(m) == Files(run).kind = "file" /\ Begins(m)
(* Answers a caller may get: a file that is too short is no file of the type,   *)
(* said either way; one that cannot be read is an error.                        *)
Allowed(m) ==
    IF Files(run).kind # "file" THEN {"err"}
    ELSE IF Begins(m) THEN {"yes"} ELSE IF Len(B) < Len(m) THEN {"no", "err"} ELSE {"no"}
=============================================================================
