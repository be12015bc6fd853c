------------------------------ MODULE TimeTrace ------------------------------
EXTENDS TimeText, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, phase
vars == <<run, phase>>
C == Cases[run]
O == C.out[1]
T == [neg |-> C.neg, d |-> C.d]
Other == [neg |-> C.neg2, d |-> C.d2]
SecsOk == /\ Len(C.out) = 1
          /\ IF C.mode = "refuse" THEN O.t = "refused"
             ELSE O.t = "secs" /\ O.msecs = OfSeconds(C.neg, C.d)
Ok == IF C.mode # "time" THEN SecsOk ELSE
      /\ Len(C.out) = 1 /\ O.t = "time"
      /\ O.srt = SrtText(T) /\ O.vtt = VttText(T) /\ O.idx = IdxText(T)
      /\ Denotes(O.srt, 44) = <<T>> /\ Denotes(O.vtt, 46) = <<T>> /\ Denotes(O.idx, 58) = <<T>>
      /\ O.msecs = T /\ O.diff \in -1..1
      /\ O.cmp = Compared(T, Other) /\ O.eq = (T = Other) /\ (O.opp # <<>> => O.opp[1] = Opposite(T))
      /\ O.span
Init == run \in DOMAIN Cases /\ phase = "recorded"
Judge ==
    /\ phase = "recorded" /\ phase' = "judged" /\ UNCHANGED run
    /\ PrintT("@@" \o ToJson([run |-> run, ok |-> Ok, ev |-> IF Ok THEN <<>> ELSE IF C.mode = "time" THEN <<SrtText(T)>> ELSE <<OfSeconds(C.neg, C.d)>>]))
TSpec == Init /\ [][Judge]_vars
=============================================================================
