------------------------------ MODULE MCReaders ------------------------------
(* Two readers of one SUP stream, each a Pgs machine of its own, whose steps    *)
(* are interleaved in all ways - also in the middle of a request.  Together     *)
(* they are Readers: what each one gives does not depend on the other.          *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

CONSTANTS Alphabet, MaxItems, Modes, Emit
VARIABLES aRun, aPhase, aPos, aStart, aPal, aImg, aPart, aBad, aEv,
          bRun, bPhase, bPos, bStart, bPal, bImg, bPart, bBad, bEv,
          sched, told
F == INSTANCE PgsFormat
MStream(r) == r.bytes
MMode(r, n) == r.mode
MFault(r) == -1
A == INSTANCE Pgs WITH Stream <- MStream, Mode <- MMode, Fault <- MFault,
     run <- aRun, phase <- aPhase, pos <- aPos, start <- aStart, pal <- aPal, img <- aImg, part <- aPart, bad <- aBad, ev <- aEv
B == INSTANCE Pgs WITH Stream <- MStream, Mode <- MMode, Fault <- MFault,
     run <- bRun, phase <- bPhase, pos <- bPos, start <- bStart, pal <- bPal, img <- bImg, part <- bPart, bad <- bBad, ev <- bEv
aVars == <<aRun, aPhase, aPos, aStart, aPal, aImg, aPart, aBad, aEv>>
bVars == <<bRun, bPhase, bPos, bStart, bPal, bImg, bPart, bBad, bEv>>
vars == <<aVars, bVars, sched, told>>

Scripts == UNION {[1..n -> Alphabet] : n \in 0..MaxItems}
RunOf(s, m) == [script |-> s, mode |-> m, bytes |-> F!ScriptBytes(s), exp |-> F!Expected(s, m)]
Init == /\ \E s \in Scripts, m \in Modes : LET r == RunOf(s, m) IN A!PgsInit(r) /\ B!PgsInit(r)
        /\ sched = <<>> /\ told = FALSE
StepA == A!PgsNext /\ UNCHANGED <<bVars, told>> /\ sched' = IF aEv' # aEv THEN Append(sched, 0) ELSE sched
StepB == B!PgsNext /\ UNCHANGED <<aVars, told>> /\ sched' = IF bEv' # bEv THEN Append(sched, 1) ELSE sched
BothDone == aPhase = "done" /\ bPhase = "done"
Report ==
    /\ BothDone /\ ~told /\ told' = TRUE /\ UNCHANGED <<aVars, bVars, sched>>
    /\ Emit => PrintT("@@" \o ToJson([bytes |-> aRun.bytes, kind |-> aRun.mode, sched |-> sched]))
Spec == Init /\ [][StepA \/ StepB \/ Report]_vars /\ WF_vars(StepA) /\ WF_vars(StepB) /\ WF_vars(Report)

AsAlone == /\ IsPrefix(aEv, aRun.exp) /\ IsPrefix(bEv, bRun.exp)
           /\ aPhase = "done" => aEv = aRun.exp
           /\ bPhase = "done" => bEv = bRun.exp
ItemsOf(r) == r.exp
CountOf(r) == 2
R == INSTANCE Readers WITH Items <- ItemsOf, Count <- CountOf, run <- aRun,
     cur <- <<Len(aEv), Len(bEv)>>, gave <- <<aEv, bEv>>, step <- Len(aEv) + Len(bEv)
Refines == [][\E i \in 1..2 : R!Request(i)]_(R!rdVars)
Terminates == <>told
=============================================================================
