------------------------------- MODULE Render -------------------------------
(* Rendering of decoded pictures: a picture is [w, h, runs], runs in row     *)
(* order.                                                                    *)
EXTENDS Bytes

RECURSIVE DropRuns(_, _)
DropRuns(runs, n) ==
    IF n = 0 THEN runs
    ELSE IF RunLen(runs[1]) <= n THEN DropRuns(Tail(runs), n - RunLen(runs[1]))
    ELSE <<Append(RunKey(runs[1]), RunLen(runs[1]) - n)>> \o Tail(runs)

(* The same picture, every pixel converted. *)
ToImage(w, h, runs, conv(_)) == <<w, h, MapRuns(conv, runs)>>

(* The picture with b rows or columns of bg on all four sides. *)
Bordered(w, h, runs, b, bg) ==
    LET wide == w + 2 * b
        row(acc, y) ==
            [rest |-> DropRuns(acc.rest, w),
             out |-> AddRun(ConcatRuns(AddRun(acc.out, bg, b), TakeRuns(acc.rest, w)), bg, b)]
        body == FoldLeft(row, [rest |-> runs, out |-> AddRun(<<>>, bg, wide * b)], [y \in 1..h |-> y]).out
    IN <<wide, h + 2 * b, AddRun(body, bg, wide * b)>>

(* Options of the OCR rendering: <<border, text, background>>; unless given  *)
(* a border of five, black on white.                                         *)
DefaultOpt == <<5, 0, 255>>
OptOf(c) == IF c.how = "default" THEN DefaultOpt
            ELSE IF c.how = "border" THEN [DefaultOpt EXCEPT ![1] = c.border]
            ELSE <<c.border, c.text, c.bg>>

(* Black where luminance and alpha both reach their threshold. *)
Threshold(lt, at, p) == IF p[1] >= lt /\ p[2] >= at THEN <<0>> ELSE <<255>>

(* What a picture of Luma pixels has to satisfy to be the bordered one: used  *)
(* on small pictures as an independent statement of Bordered.               *)
PixelOf(pic, x, y) == RunAt(pic[3], y * pic[1] + x)
IsBordered(out, w, h, runs, b, bg) ==
    /\ out[1] = w + 2 * b /\ out[2] = h + 2 * b
    /\ TotalRuns(out[3]) = out[1] * out[2]
    /\ \A x \in 0..(out[1] - 1), y \in 0..(out[2] - 1) :
          PixelOf(out, x, y) =
              IF x < b \/ x >= w + b \/ y < b \/ y >= h + b THEN bg
              ELSE RunAt(runs, (y - b) * w + (x - b))
=============================================================================
