----------------------------- MODULE ProbeTrace -----------------------------
EXTENDS Probe, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
TFiles(r) == [bytes |-> Cases[r].bytes, kind |-> Cases[r].kind]
O == Cases[run].out
Ok == Len(O) = 1 /\ O[1].t = "probe" /\ O[1].idx \in Allowed(IdxMagic) /\ O[1].sub \in Allowed(SubMagic)
Judge ==
    /\ phase = "closed" /\ phase' = "judged"
    /\ PrintT("@@" \o ToJson([run |-> run, ok |-> Ok, ev |-> IF Ok THEN <<>> ELSE <<Allowed(IdxMagic), Allowed(SubMagic)>>]))
    /\ UNCHANGED <<run, asked, got, ans>>
TInit == \E r \in DOMAIN Cases : ProbeInitAt(r, "closed") /\ asked = "idx"
TSpec == TInit /\ [][Judge]_probeVars
=============================================================================
