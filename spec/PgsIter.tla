------------------------------ MODULE PgsIter ------------------------------
(* The iteration over the pixels of a SUP image: one action per request for  *)
(* a pixel.  `pic` is the image [w, h, data, pal]; the iterator holds how    *)
(* many pixels are still to come (`left`), the run in progress (`cur`,       *)
(* `rem`) and how much of the data it has read (`off`).                      *)
EXTENDS PgsRle

VARIABLES pic, left, cur, rem, off, out, calls
iterVars == <<pic, left, cur, rem, off, out, calls>>

TransparentWhite == <<255, 0>>

IterInit(p) ==
    /\ pic = p /\ left = p.w * p.h /\ cur = <<0, 255>> /\ rem = 0 /\ off = 0
    /\ out = <<>> /\ calls = 0

(* The code at offset o: its colour, its count and where the next one is;    *)
(* line ends and empty runs are passed over.  count = 0: the data ends.      *)
RECURSIVE Code(_, _)
Code(d, o) ==
    LET has(n) == o + n <= Len(d)
        b(n) == d[o + n]
        none == [colour |-> 0, count |-> 0, off |-> Len(d)]
        run(c, n, size) == IF n = 0 THEN Code(d, o + size) ELSE [colour |-> c, count |-> n, off |-> o + size]
    IN IF ~has(1) THEN none
       ELSE IF b(1) # 0 THEN run(b(1), 1, 1)
       ELSE IF ~has(2) THEN none
       ELSE IF b(2) = 0 THEN Code(d, o + 2)
       ELSE IF b(2) < 64 THEN run(0, b(2), 2)
       ELSE IF b(2) < 128 THEN IF has(3) THEN run(0, (b(2) - 64) * 256 + b(3), 3) ELSE none
       ELSE IF b(2) < 192 THEN IF has(3) THEN run(b(3), b(2) - 128, 3) ELSE none
       ELSE IF has(4) THEN run(b(4), (b(2) - 192) * 256 + b(3), 4) ELSE none

Yield(p) == out' = AddRun(out, p, 1) /\ left' = left - 1

FromRun ==       \* the run in progress goes on
    /\ left > 0 /\ rem > 0
    /\ Yield(cur) /\ rem' = rem - 1
    /\ UNCHANGED <<pic, cur, off>>
NewRun ==        \* a code is read
    /\ left > 0 /\ rem = 0
    /\ LET c == Code(pic.data, off) IN
         /\ c.count > 0
         /\ cur' = Look(pic.pal, c.colour) /\ Yield(cur')
         /\ rem' = c.count - 1 /\ off' = c.off
    /\ UNCHANGED pic
Padding ==       \* the data has ended before the picture
    /\ left > 0 /\ rem = 0
    /\ LET c == Code(pic.data, off) IN c.count = 0 /\ off' = c.off
    /\ Yield(TransparentWhite)
    /\ UNCHANGED <<pic, cur, rem>>
AfterEnd ==      \* all pixels are given: nothing more, for ever
    /\ left = 0
    /\ UNCHANGED <<pic, left, cur, rem, off, out>>

Request(max) ==
    /\ calls < max /\ calls' = calls + 1
    /\ FromRun \/ NewRun \/ Padding \/ AfterEnd

(* What is promised (C04, C09). *)
LengthIsExact == left = pic.w * pic.h - TotalRuns(out)
NeverTooMany == left >= 0
PixelsAreThoseOfTheData == left = 0 => out = PgsPixels(pic.data, pic.pal, pic.w * pic.h)
PrefixOfThePixels == out = TakeRuns(PgsPixels(pic.data, pic.pal, pic.w * pic.h), TotalRuns(out))
=============================================================================
