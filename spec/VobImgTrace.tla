----------------------------- MODULE VobImgTrace -----------------------------
(* Checks recorded renderings of VobSub bitmaps.                              *)
EXTENDS VobRender, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, phase
vars == <<run, phase>>
C == Cases[run]
O == C.out[1]
Accepts ==
    /\ Len(C.out) = 1 /\ O.t = "ren"
    /\ O.w = W(C) /\ O.h = H(C) /\ O.x = C.x1 /\ O.y = C.y1
    /\ O.pal = C.pal /\ O.al = C.al /\ O.n = W(C) * H(C)
    /\ O.lum = [i \in 1..16 |-> Luminance(C.palette[i])]
    /\ O.rgba = Rgba(C) /\ O.conv = Odd(C) /\ O.luma = Grey(C)
    /\ O.opt = OptOf(C)
    /\ O.ocr = Ocr(C)
Init == run \in DOMAIN Cases /\ phase = "recorded"
Judge ==
    /\ phase = "recorded" /\ phase' = "judged" /\ UNCHANGED run
    /\ PrintT("@@" \o ToJson([run |-> run, ok |-> Accepts, ev |-> IF Accepts THEN <<>> ELSE <<Rgba(C), Ocr(C)>>]))
TSpec == Init /\ [][Judge]_vars
=============================================================================
