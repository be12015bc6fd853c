----------------------------- MODULE MCIterOps -----------------------------
(* Every script of operations over the iteration of PgsIter, each carried out *)
(* request by request: what it gives is what IterOps says, and the length is   *)
(* right at every moment - whatever has been done before.                      *)
EXTENDS PgsIter, PgsFormat, TLC, Json

CONSTANTS MaxOps, Emit, Pictures
VARIABLES ops, got,      \* the operations done (the last may be under way) and their answers
          before,        \* pixels given before the operation under way
          asked,         \* requests it has made
          ph
O == INSTANCE IterOps
mcVars == <<iterVars, ops, got, before, asked, ph>>

Pal == <<[id |-> 7, l |-> 9, a |-> 8], [id |-> 0, l |-> 1, a |-> 2], [id |-> 255, l |-> 255, a |-> 255]>>
P(w, h, d) == [w |-> w, h |-> h, data |-> d, pal |-> Pal]
(* exact, with an empty run, padded, cut short, too much data, no pixels *)
AllPics == { P(3, 2, <<0, 2, 7, 0, 0, 0, 130, 255, 7>>), P(4, 1, <<7, 0, 128, 9, 7, 0, 3>>), P(5, 1, <<255, 7>>),
             P(4, 1, <<7, 0, 193, 2>>), P(2, 1, <<0, 64, 9, 7>>), P(0, 3, <<7>>), P(1, 3, <<1, 0>>) }
Pics == { p \in AllPics : p.w * p.h <= Pictures }

Op(k) == <<k>>
OpK(k, n) == <<k, n>>
Free == {Op("next"), Op("len"), OpK("nth", 0), OpK("nth", 1), OpK("nth", 3), OpK("skip", 2), OpK("take", 0), OpK("take", 2),
         OpK("find", <<9, 8>>), OpK("find", <<255, 0>>)}
Final == {Op("rest"), Op("fold"), Op("for"), Op("collect"), Op("count"), Op("last"), OpK("step", 2)}

Cur == ops[Len(ops)]
Kind == Cur[1]
Given == TotalRuns(out)
Fresh == Given - before
LastPixel == RunKey(out[Len(out)])
(* Does the operation under way need one more request? *)
Wants ==
    CASE Kind = "len" -> FALSE
      [] Kind = "next" -> asked < 1
      [] Kind \in {"nth", "skip"} -> asked < Cur[2] + 1 /\ Fresh = asked
      [] Kind = "take" -> asked < Cur[2] /\ Fresh = asked
      [] Kind = "find" -> Fresh = asked /\ ~(Fresh > 0 /\ LastPixel = Cur[2])
      [] OTHER -> Fresh = asked
Every2(s) == FoldLeft(LAMBDA acc, i : IF i % 2 = 1 THEN AddRun(acc, RunAt(s, i - 1), 1) ELSE acc, <<>>, [i \in 1..TotalRuns(s) |-> i])
(* What it has found out by its requests. *)
Found ==
    LET new == O!DropRuns(out, before)
    IN CASE Kind = "len" -> <<left, left, left>>
         [] Kind \in {"next", "nth", "skip"} -> IF Fresh = asked THEN LastPixel ELSE <<>>
         [] Kind \in {"take", "rest", "fold", "for", "collect"} -> new
         [] Kind = "find" -> IF Fresh = asked THEN <<Fresh - 1>> ELSE <<>>
         [] Kind = "count" -> <<Fresh>>
         [] Kind = "last" -> IF Fresh = 0 THEN <<>> ELSE LastPixel
         [] Kind = "step" -> Every2(new)

Stream1(p) ==
    Segm(1, 20, FoldLeft(LAMBDA acc, e : acc \o <<e.id, e.l, 1, 2, e.a>>, <<0, 0>>, p.pal))
    \o Segm(2, 21, <<0, 0, 0, 192>> \o <<0, 0, Len(p.data) + 4>> \o <<0, p.w, 0, p.h>> \o p.data)
    \o Segm(3, 128, <<>>) \o Segm(4, 128, <<>>)

MInit == /\ \E p \in Pics : IterInit(p)
         /\ ops = <<>> /\ got = <<>> /\ before = 0 /\ asked = 0 /\ ph = "idle"
Begin ==
    /\ ph = "idle" /\ Len(ops) < MaxOps /\ (ops # <<>> => Kind \notin O!Ending)
    /\ \E o \in Free \cup Final : ops' = Append(ops, o)
    /\ before' = Given /\ asked' = 0 /\ ph' = "op"
    /\ UNCHANGED <<iterVars, got>>
Ask ==
    /\ ph = "op" /\ Wants
    /\ Request(calls + 1) /\ asked' = asked + 1
    /\ UNCHANGED <<ops, got, before, ph>>
Finish ==
    /\ ph = "op" /\ ~Wants
    /\ got' = Append(got, Found) /\ ph' = "idle"
    /\ UNCHANGED <<iterVars, ops, before, asked>>
Report ==
    /\ ph = "idle" /\ ops # <<>> /\ (Len(ops) = MaxOps \/ Kind \in O!Ending)
    /\ ph' = "told"
    /\ Emit => PrintT("@@" \o ToJson([bytes |-> Stream1(pic), ops |-> ops, got |-> got]))
    /\ UNCHANGED <<iterVars, ops, got, before, asked>>
MSpec == MInit /\ [][Begin \/ Ask \/ Finish \/ Report]_mcVars /\ WF_mcVars(Begin \/ Ask \/ Finish \/ Report)

Total == pic.w * pic.h
AnswersAreRight == ph = "idle" => got = O!Answers(PgsPixels(pic.data, pic.pal, Total), Total, 0, ops)
Terminates == <>(ph = "told")
=============================================================================
