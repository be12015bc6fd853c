------------------------------- MODULE MCProbe -------------------------------
(* All near misses: every prefix of each magic, with one byte changed, with and *)
(* without further bytes; all short strings over the bytes of the pack start.   *)
EXTENDS Probe, TLC, Json
CONSTANTS Small, Emit

Prefixes(m) == {SubSeq(m, 1, n) : n \in 0..Len(m)}
OneOff(m) == {[m EXCEPT ![i] = c] : i \in DOMAIN m, c \in {0, 1, 32, 35, 86, 185, 187, 255}} \cup
             {[m EXCEPT ![i] = IF @ >= 97 /\ @ <= 122 THEN @ - 32 ELSE @] : i \in DOMAIN m}
Tails == {<<>>, <<0>>, <<10>>, <<1, 186>>, <<44, 32, 118, 55>>}
Shorts == UNION {[1..n -> {0, 1, 186, 35}] : n \in 0..Small}
Contents ==
    {p \o t : p \in Prefixes(IdxMagic) \cup Prefixes(SubMagic) \cup OneOff(IdxMagic) \cup OneOff(SubMagic), t \in Tails}
    \cup Shorts \cup {<<0>> \o SubMagic, <<10>> \o IdxMagic, <<239, 187, 191>> \o IdxMagic, SubMagic \o IdxMagic, IdxMagic \o SubMagic}
AllFiles == {[bytes |-> b, kind |-> "file"] : b \in Contents}
            \cup {[bytes |-> <<>>, kind |-> k] : k \in {"dir", "missing"}}
MFiles(r) == r
MInit == \E f \in AllFiles : ProbeInitAt(f, "closed")
Report ==
    /\ phase = "answered" /\ phase' = "reported"
    /\ Emit => PrintT("@@" \o ToJson([bytes |-> run.bytes, kind |-> run.kind, asked |-> asked, allowed |-> Allowed(Magic)]))
    /\ UNCHANGED <<run, asked, got, ans>>
MNext == ProbeNext \/ Report
MSpec == MInit /\ [][MNext]_probeVars /\ WF_probeVars(MNext)
Answers == phase = "answered" => ans \in Allowed(Magic) /\ (ans = "yes" <=> Is(Magic))
NeverBoth == phase # "closed" => ~(Is(IdxMagic) /\ Is(SubMagic))
Terminates == <>(phase = "reported")
=============================================================================
