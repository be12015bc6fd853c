------------------------------- MODULE PgsRle -------------------------------
(* The run-length code of PGS objects, as an automaton that reads one byte  *)
(* per step.  A code is:                                                    *)
(*    C            one pixel of colour C (C # 0)                            *)
(*    0 0          end of line                                              *)
(*    0 00nnnnnn                 n pixels of colour 0                       *)
(*    0 01nnnnnn nnnnnnnn        n pixels of colour 0                       *)
(*    0 10nnnnnn CC              n pixels of colour C                       *)
(*    0 11nnnnnn nnnnnnnn CC     n pixels of colour C                       *)
EXTENDS Bytes

RleStart == [st |-> "code", cnt |-> 0, coloured |-> FALSE, runs |-> <<>>]

RleEmit(q, colour, n) ==
    [st |-> "code", cnt |-> 0, coloured |-> FALSE, runs |-> AddRun(q.runs, <<colour>>, n)]

RleStep(q, b) ==
    CASE q.st = "code" -> IF b # 0 THEN RleEmit(q, b, 1) ELSE [q EXCEPT !.st = "zero"]
      [] q.st = "zero" ->
            IF b = 0 THEN [q EXCEPT !.st = "code"]
            ELSE IF (b \div 64) % 2 = 1
                 THEN [q EXCEPT !.st = "long", !.cnt = b % 64, !.coloured = b >= 128]
                 ELSE IF b >= 128
                      THEN [q EXCEPT !.st = "colour", !.cnt = b % 64]
                      ELSE RleEmit(q, 0, b % 64)
      [] q.st = "long" ->
            IF q.coloured THEN [q EXCEPT !.st = "colour", !.cnt = q.cnt * 256 + b]
            ELSE RleEmit(q, 0, q.cnt * 256 + b)
      [] q.st = "colour" -> RleEmit(q, b, q.cnt)

(* Runs of colours of the data; a code cut by the end of the data counts    *)
(* for nothing.                                                             *)
RleRuns(data) == FoldLeft(RleStep, RleStart, data).runs

(* Palettes are sequences of [id, l, a].                                    *)
Look(pal, c) ==
    IF \E i \in DOMAIN pal : pal[i].id = c
    THEN LET e == pal[CHOOSE i \in DOMAIN pal :
                        pal[i].id = c /\ \A j \in 1..(i - 1) : pal[j].id # c]
         IN <<e.l, e.a>>
    ELSE <<255, 0>>

(* The pixels of an object of `total` pixels: what is missing is transparent *)
(* white, what is too much is not shown.                                    *)
PgsPixels(data, pal, total) ==
    LET shown == TakeRuns(MapRuns(LAMBDA k : Look(pal, k[1]), RleRuns(data)), total)
    IN AddRun(shown, <<255, 0>>, total - TotalRuns(shown))

(* Sizes that are worth counting pixel by pixel (the harness does not        *)
(* iterate over larger images, TLC cannot even multiply their sizes).        *)
MaxPixels == 20000000
IsBig(w, h) == w # 0 /\ h > MaxPixels \div w
=============================================================================
