---------------------------- MODULE ReadersTrace ----------------------------
(* Recorded requests to several readers: replayed request by request; what the  *)
(* data holds is what a reader gave that was alone.                             *)
EXTENDS Readers, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
C == Cases[run]
O == C.out
IsEnd(x) == x.t = "end"
FirstEnd(s) == CHOOSE i \in DOMAIN s : IsEnd(s[i]) /\ \A j \in 1..(i - 1) : ~IsEnd(s[j])
TItems(r) == LET s == Cases[r].out.alone IN IF \E i \in DOMAIN s : IsEnd(s[i]) THEN SubSeq(s, 1, FirstEnd(s)) ELSE s
TCount(r) == Cases[r].readers
Recorded == DOMAIN O = {"alone", "mixed", "threads", "other"}
Sane(s) == \A i \in DOMAIN s : s[i].t \in {"cap", "sub", "err", "end"}
Ok == /\ Recorded /\ Sane(O.alone) /\ \E i \in DOMAIN O.alone : IsEnd(O.alone[i])
      /\ \A i \in DOMAIN O.alone : O.alone[i] = Answer(run, i)
      /\ \A r \in 1..C.readers : O.mixed[r] = gave[r]
      /\ \A r \in 1..C.readers : O.threads[r] = O.alone
      /\ O.other = O.alone      \* in a process that had read other things before
Step ==
    /\ Recorded /\ Sane(O.alone) /\ step >= 0 /\ step < Len(C.sched) /\ O.alone # <<>>
    /\ LET q == C.sched[step + 1] IN Do(q[1] + 1, q[2], q[3])
Stop == step >= 0 /\ (step = Len(C.sched) \/ ~Recorded \/ ~Sane(O.alone) \/ O.alone = <<>>)
Judge ==
    /\ Stop /\ step' = -1 /\ UNCHANGED <<run, cur, gave>>
    /\ PrintT("@@" \o ToJson([run |-> run, ok |-> Ok, ev |-> IF Ok THEN <<>> ELSE gave]))
TInit == \E r \in DOMAIN Cases : RdInitAt(r)
TSpec == TInit /\ [][Step \/ Judge]_rdVars
=============================================================================
