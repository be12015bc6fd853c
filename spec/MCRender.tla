------------------------------ MODULE MCRender ------------------------------
(* The bordered rendering of all small pictures, drawn pixel by pixel.       *)
EXTENDS Render

CONSTANTS MaxW, MaxH, MaxBorder

VARIABLES pic, border, cell, out
vars == <<pic, border, cell, out>>

Bg == <<9>>
Pix == {<<1>>, <<2>>, <<9>>}
Runs(px) == FoldLeft(LAMBDA acc, p : AddRun(acc, p, 1), <<>>, px)
Pictures == UNION {{[w |-> w, h |-> h, px |-> px] : px \in [1..(w * h) -> Pix]} : w \in 0..MaxW, h \in 0..MaxH}

Wide == pic.w + 2 * border
High == pic.h + 2 * border

MInit == pic \in Pictures /\ border \in 0..MaxBorder /\ cell = 0 /\ out = <<>>
X == cell % Wide
Y == cell \div Wide
OnBorder == X < border \/ X >= pic.w + border \/ Y < border \/ Y >= pic.h + border
Draw(p) ==
    /\ cell < Wide * High /\ cell' = cell + 1
    /\ out' = AddRun(out, p, 1)
    /\ UNCHANGED <<pic, border>>
DrawBorder == cell < Wide * High /\ OnBorder /\ Draw(Bg)
DrawInside == cell < Wide * High /\ ~OnBorder /\ Draw(pic.px[(Y - border) * pic.w + (X - border) + 1])
MNext == DrawBorder \/ DrawInside
MSpec == MInit /\ [][MNext]_vars

Result == Bordered(pic.w, pic.h, Runs(pic.px), border, Bg)
(* The picture drawn so far is the beginning of the bordered one ... *)
BorderIsRight == out = TakeRuns(Result[3], cell) /\ TotalRuns(out) = cell
(* ... which has the right size, and every pixel where it belongs. *)
BorderIsComplete ==
    cell = Wide * High =>
        /\ Result = <<Wide, High, out>>
        /\ IsBordered(Result, pic.w, pic.h, Runs(pic.px), border, Bg)
=============================================================================
