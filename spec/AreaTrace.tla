------------------------------ MODULE AreaTrace ------------------------------
EXTENDS Area, Sequences, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, phase
vars == <<run, phase>>
C == Cases[run]
Ok == Len(C.out) = 1 /\ C.out[1] = Answer(C)
Init == run \in DOMAIN Cases /\ phase = "recorded"
Judge ==
    /\ phase = "recorded" /\ phase' = "judged" /\ UNCHANGED run
    /\ PrintT("@@" \o ToJson([run |-> run, ok |-> Ok, ev |-> IF Ok THEN <<>> ELSE <<Answer(C)>>]))
TSpec == Init /\ [][Judge]_vars
=============================================================================
