------------------------------ MODULE IdxTrace ------------------------------
(* Checks recorded readings of idx files against Idx.                         *)
EXTENDS Idx, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.TRACE)
O == Cases[run].out
PalMode == Cases[run].mode = "pal"
(* A case with `puff` = <<at, n, pattern>> holds a whole line twice from `at`    *)
(* on, but was run with n more of it.  After a line the index is what it was     *)
(* with the line's effect, and the same line has no further effect: a line sets  *)
(* the palette, sets the language, or nothing.  So the result is the same.       *)
Puffed == "puff" \in DOMAIN Cases[run]
LinesPuffed ==
    LET at == Cases[run].puff[1]
        p == Cases[run].puff[3]
        k == Len(p)
        b == Cases[run].bytes
    IN  /\ at = 0 \/ b[at] = 10
        /\ p[k] = 10 /\ \A i \in 1..(k - 1) : p[i] # 10
        /\ SubSeq(b, at + 1, at + 2 * k) = p \o p
        /\ Cases[run].fault = -1 /\ ~PalMode
TData(r) == [bytes |-> Cases[r].bytes, fault |-> Cases[r].fault]
TGives(n) == {n}

(* The palette text parser on its own gives what it does not use back. *)
PalResult ==
    IF Len(Bytes) >= PaletteLen /\ PaletteOk(SubSeq(Bytes, 1, PaletteLen))
    THEN [t |-> "pal", pal |-> PaletteOf(Bytes)] ELSE [t |-> "err"]
PalAccepts ==
    /\ Len(O) = 1 /\ O[1].t \in {"pal", "err"}
    \* A text that goes on with another colour has more than sixteen.
    /\ O[1].t = "pal" => /\ PalResult.t = "pal" /\ O[1].pal = PalResult.pal
                         /\ O[1].rest = Len(Bytes) - PaletteLen
    /\ Len(Bytes) = PaletteLen => O[1].t = PalResult.t
Accepts ==
    IF PalMode THEN PalAccepts
    ELSE /\ Len(O) = 1 /\ O[1].t = Result.t
         /\ Result.t = "ok" => O[1].pal = Result.pal /\ O[1].lang = Result.lang /\ O[1].haslang = Result.haslang
         /\ Result.t = "err" => O[1].k = Result.k

Verdict ==
    /\ phase = "done" /\ phase' = "judged"
    /\ Assert(Puffed => LinesPuffed, "the pattern of a puffed case is not a line that stands twice")
    /\ PrintT("@@" \o ToJson([run |-> run, ok |-> Accepts, ev |-> IF Accepts THEN <<>> ELSE <<Result>>]))
    /\ UNCHANGED <<run, pos, line, pal, lang, res>>
TInit == \E r \in DOMAIN Cases : IdxInitAt(r, IF Cases[r].mode = "pal" THEN "done" ELSE "line")
TNext == IdxNext \/ Verdict
TSpec == TInit /\ [][TNext]_idxVars
=============================================================================
