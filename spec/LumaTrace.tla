------------------------------ MODULE LumaTrace ------------------------------
EXTENDS Luma, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, phase
vars == <<run, phase>>
C == Cases[run]
O == C.out[1]
(* One pixel of 16 bits: C.l, C.a, thresholds C.lt, C.at. *)
One == O.run16 = BW(C.l, C.a, C.lt, C.at, 65535) /\ (O.ct16 # <<>> => O.ct16 = <<BW(C.l, C.a, C.lt, C.at, 65535)>>)
All == LET g == Grid(C.lt, C.at, 256)
       IN /\ O.run = g /\ O.runref = g
          /\ O.ct # <<>> => O.ct = g /\ O.ctref = g
(* One pixel of another kind of numbers. *)
NotANumber == 2000000001        \* is not above or at anything, and nothing is above or at it
Other == LET w == IF NotANumber \in {C.l, C.a, C.lt, C.at} THEN 1 ELSE BW(C.l, C.a, C.lt, C.at, 1)
         IN O.bw = w /\ O.bwref = w /\ (O.ct # <<>> => O.ct = <<w>>)
Ok == /\ Len(C.out) = 1 /\ O.t = "luma"
      /\ IF C.bits = 0 THEN Other ELSE IF C.bits = 16 THEN One ELSE All
Init == run \in DOMAIN Cases /\ phase = "recorded"
Judge ==
    /\ phase = "recorded" /\ phase' = "judged" /\ UNCHANGED run
    /\ PrintT("@@" \o ToJson([run |-> run, ok |-> Ok, ev |-> IF Ok THEN <<>> ELSE <<C.lt, C.at>>]))
TSpec == Init /\ [][Judge]_vars
=============================================================================
