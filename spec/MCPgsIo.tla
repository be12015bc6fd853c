------------------------------ MODULE MCPgsIo ------------------------------
(* All request sequences of a bounded family, over all sources of a bounded  *)
(* size with and without a failing offset.                                   *)
EXTENDS PgsIo

CONSTANT Depth
Sizes == 0..3
Requests == UNION {[1..n -> {"read", "skip"} \X Sizes] : n \in 1..Depth}

VARIABLE asked
mcVars == <<ioVars, asked>>
MInit ==
    /\ total \in 0..6 /\ fault \in -1..6 /\ (fault >= 0 => fault <= total)
    /\ todo \in Requests /\ asked = todo
    /\ want = 0 /\ pos = 0 /\ fill = 0 /\ got = <<>> /\ intr = 0 /\ res = "ok"
MNext == IoNext /\ UNCHANGED asked
MSpec == MInit /\ [][MNext]_mcVars /\ WF_mcVars(MNext)

(* The offset at which request k starts, and the bytes of the read requests. *)
RECURSIVE At(_)
At(k) == IF k = 1 THEN 0 ELSE At(k - 1) + asked[k - 1][2]
RECURSIVE Wanted(_)
Wanted(k) ==
    IF k = 0 THEN <<>>
    ELSE Wanted(k - 1) \o (IF asked[k][1] = "read" THEN [i \in 1..asked[k][2] |-> At(k) + i] ELSE <<>>)
Reaches == IF fault >= 0 THEN fault ELSE total
IsPre(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]

(* The bytes given are those that were asked for, and all of them in the end. *)
Delivered ==
    /\ IsPre(got, Wanted(Len(asked)))
    /\ \A i \in DOMAIN got : got[i] <= Reaches
    /\ todo = <<>> => got = Wanted(Len(asked))
(* A failure is reported as such and nothing else is; a request that can be  *)
(* met is met: the one that is not needs bytes that are not there.           *)
Honest ==
    /\ res = "eof" => fault < 0
    /\ res = "failed" => fault >= 0
    /\ res # "ok" => LET k == Len(asked) - Len(todo) + 1
                     IN At(k) + asked[k][2] > Reaches
                        \/ (asked[k][1] = "skip" /\ At(k) >= Reaches)
Terminates == <>(res # "ok" \/ todo = <<>>)
=============================================================================
