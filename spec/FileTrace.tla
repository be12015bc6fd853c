------------------------------ MODULE FileTrace ------------------------------
EXTENDS FileRead, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
Rec(r) == Cases[r].out[1]
Recorded(r) == Len(Cases[r].out) = 1 /\ Rec(r).t = "file"
TJobs(r) == [kind |-> Cases[r].kind, what |-> Cases[r].what, items |-> IF Recorded(r) THEN Rec(r).mem ELSE <<>>]
F == Rec(run).file
Ok == /\ Recorded(run)
      /\ IF J.what \in Folders /\ J.kind \in Lazy
         \* Told when it is opened, or as an error of every request.
         THEN F = <<PathError>> \/ (F # <<>> /\ \A i \in DOMAIN F : F[i].t = "err")
         ELSE F = gave
Judge ==
    /\ Stopped /\ phase' = "judged" /\ UNCHANGED <<run, gave>>
    /\ PrintT("@@" \o ToJson([run |-> run, ok |-> Ok, ev |-> IF Ok THEN <<>> ELSE gave]))
TInit == \E r \in DOMAIN Cases : FrInitAt(r)
TSpec == TInit /\ [][FrNext \/ Judge]_frVars
=============================================================================
