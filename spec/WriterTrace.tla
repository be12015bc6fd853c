----------------------------- MODULE WriterTrace -----------------------------
EXTENDS Writer, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
TJobs(r) == Cases[r]
O == Cases[run].out
(* How the run of the machine that takes all it can ends. *)
Whole == J.fail < 0 \/ J.fail >= Len(text)
Ok == /\ Len(O) = 1 /\ O[1].t = "wrote"
      /\ O[1].res = (IF Whole THEN "ok" ELSE IF J.zero THEN "othererr" ELSE "injected")
      /\ O[1].bytes = (IF Whole THEN text ELSE SubSeq(text, 1, J.fail))
Judge ==
    /\ phase = "writing" /\ phase' = "judged" /\ UNCHANGED <<run, text, out, intr>>
    /\ PrintT("@@" \o ToJson([run |-> run, ok |-> Ok, ev |-> IF Ok THEN <<>> ELSE text]))
TInit == \E r \in DOMAIN Cases : WInitAt(r, "open")
TSpec == TInit /\ [][Compose \/ Judge]_wVars
=============================================================================
