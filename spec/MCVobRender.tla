----------------------------- MODULE MCVobRender -----------------------------
(* The OCR picture of all small bitmaps, drawn pixel by pixel, each pixel by  *)
(* the rule itself; and the cases for the replay in the real code.            *)
EXTENDS VobRender, TLC, Json

CONSTANTS Heights,      \* heights (the width is 2)
          Emit

VARIABLES case, cell, out
vars == <<case, cell, out>>

(* Sixteen colours: black ones, nearly black ones (luminance 0 or not), ...    *)
Palette == << <<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 2, 0>>, <<5, 0, 0>>, <<4, 0, 0>>, <<0, 0, 13>>, <<0, 0, 14>>,
              <<255, 255, 255>>, <<255, 0, 0>>, <<0, 255, 0>>, <<0, 0, 255>>, <<1, 1, 1>>, <<16, 32, 64>>, <<0, 0, 1>>, <<254, 1, 200>> >>
Pals == { <<0, 8, 1, 15>>, <<2, 3, 4, 5>>, <<6, 7, 12, 14>>, <<9, 10, 11, 13>>, <<8, 8, 0, 0>> }
Als == { <<15, 15, 15, 15>>, <<0, 1, 15, 8>>, <<1, 0, 0, 1>> }
Runs(px) == FoldLeft(LAMBDA acc, p : AddRun(acc, <<p>>, 1), <<>>, px)
Init0(h) ==
    \E px \in [1..(2 * h) -> 0..3], p \in Pals, a \in Als, b \in 0..1 :
        case = [fam |-> "vobimg", x1 |-> 7, x2 |-> 8, y1 |-> 100, y2 |-> 100 + h - 1, px |-> px, raw |-> Runs(px),
                pal |-> p, al |-> a, palette |-> Palette, border |-> b, text |-> 17, bg |-> 200, how |-> "own"]
MInit == (\E h \in Heights : Init0(h)) /\ cell = 0 /\ out = <<>>
Wide == 2 + 2 * case.border
High == H(case) + 2 * case.border
X == cell % Wide
Y == cell \div Wide
In == X >= case.border /\ X < 2 + case.border /\ Y >= case.border /\ Y < H(case) + case.border
V == case.px[(Y - case.border) * 2 + X - case.border + 1]
Draw(p) == cell' = cell + 1 /\ out' = AddRun(out, <<p>>, 1) /\ UNCHANGED case
DrawBorder == cell < Wide * High /\ ~In /\ Draw(case.bg)
DrawText ==
    /\ cell < Wide * High /\ In
    /\ AlphaOf(case, V) > 0 /\ Luminance(ColourOf(case, V)) > 0
    /\ Draw(case.text)
DrawBackground ==
    /\ cell < Wide * High /\ In
    /\ AlphaOf(case, V) = 0 \/ Luminance(ColourOf(case, V)) = 0
    /\ Draw(case.bg)
Report ==
    /\ cell = Wide * High /\ cell' = cell + 1
    /\ Emit => PrintT("@@" \o ToJson([case |-> case, ocr |-> Ocr(case), rgba |-> Rgba(case), luma |-> Grey(case)]))
    /\ UNCHANGED <<case, out>>
MNext == DrawBorder \/ DrawText \/ DrawBackground \/ Report
MSpec == MInit /\ [][MNext]_vars
OcrIsRight == cell >= Wide * High => Ocr(case) = <<Wide, High, out>>
RgbaIsRight ==
    cell = 0 => LET r == Rgba(case)
                IN \A i \in DOMAIN case.px :
                      RunAt(r[3], i - 1) = Append(Palette[case.pal[case.px[i] + 1] + 1], case.al[case.px[i] + 1])
=============================================================================
