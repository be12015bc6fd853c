----------------------------- MODULE PgsImgTrace -----------------------------
(* Checks recorded iterations over and renderings of SUP images.  Every case  *)
(* holds the object `img` = [w, h, data, pal] whose stream was read, the      *)
(* options of the rendering and what the real code gave.                      *)
EXTENDS PgsRle, Render, IterOps, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, phase
vars == <<run, phase>>

C == Cases[run]
I == C.img
O == C.out[1]
Has(a) == \E i \in DOMAIN C.asp : C.asp[i] = a
Total == I.w * I.h

(* Colours at their place, `missing` where the palette or the data has none. *)
Coloured(missing, f(_, _)) ==
    LET known(c) == \E i \in DOMAIN I.pal : I.pal[i].id = c
        conv(k) == IF known(k[1]) THEN LET p == Look(I.pal, k[1]) IN f(p[1], p[2]) ELSE missing
        shown == TakeRuns(MapRuns(conv, RleRuns(I.data)), Total)
    IN AddRun(shown, missing, Total - TotalRuns(shown))

Px == PgsPixels(I.data, I.pal, Total)
Px16 == Coloured(<<65535, 0>>, LAMBDA l, a : <<2 * l, a + 7>>)

PixelsOk == O.px = Px /\ O.px16 = Px16
ThrConv(p) == Threshold(C.lt, C.at, p)
RenderOk ==
    LET px == Px
        thr == MapRuns(ThrConv, px)
    IN /\ O.w = I.w /\ O.h = I.h
       /\ O.id = <<I.w, I.h, px>>
       /\ O.rgb = ToImage(I.w, I.h, px, LAMBDA p : <<p[1], p[2], 255 - p[1]>>)
       /\ O.thr = <<I.w, I.h, thr>>
       /\ O.opt = OptOf(C)
       /\ O.ocr = Bordered(I.w, I.h, thr, OptOf(C)[1], <<OptOf(C)[3]>>)
(* Entry: [pixels taken, reported length, lower bound, upper bound]. *)
LengthOk ==
    /\ O.len.taken = Total
    /\ \A i \in DOMAIN O.len.lens :
          LET e == O.len.lens[i] IN e[2] = Total - e[1] /\ e[3] = Total - e[1] /\ e[4] = Total - e[1]
    /\ \A i \in DOMAIN O.len.after : O.len.after[i]
    /\ \E i \in DOMAIN O.len.lens : O.len.lens[i][1] = 0
    /\ \E i \in DOMAIN O.len.lens : O.len.lens[i][1] = Total
    /\ TotalRuns(O.px) = Total

(* Lengths beyond the integers of the checker: in base 65536.                 *)
Left(w, h, taken) ==
    LET low == ((w * (h \div 256)) % 256) * 256 + w * (h % 256) - taken
        up == (w * (h \div 256)) \div 256
    IN IF low >= 0 THEN <<up + low \div 65536, low % 65536>>
       ELSE <<up - 1 - (0 - low - 1) \div 65536, 65535 - ((0 - low - 1) % 65536)>>
(* Two iterations are asked in turn before every pixel they give.            *)
HugeOk ==
    /\ O.w = I.w /\ O.h = I.h
    /\ Len(O.huge) = 2 * (C.huge + 1)
    /\ \A i \in DOMAIN O.huge : \A k \in 1..3 : O.huge[i][k] = Left(I.w, I.h, (i - 1) \div 2)

OpsOk == O.ops = Answers(Px, Total, 0, C.ops)

Accepts ==
    /\ Len(C.out) = 1 /\ O.t = "img"
    /\ Has("px") => PixelsOk
    /\ Has("ren") => RenderOk
    /\ Has("len") => LengthOk
    /\ Has("ops") => OpsOk
    /\ Has("huge") => HugeOk

Init == run \in DOMAIN Cases /\ phase = "recorded"
Judge ==
    /\ phase = "recorded" /\ phase' = "judged" /\ UNCHANGED run
    /\ PrintT("@@" \o ToJson([run |-> run, ok |-> Accepts, ev |-> IF Accepts \/ Has("huge") THEN <<>> ELSE Px]))
TSpec == Init /\ [][Judge]_vars
=============================================================================
