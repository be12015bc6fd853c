------------------------------- MODULE MCLuma -------------------------------
(* A scan over all pixels of n luminances and alphas, in the order of Grid, for *)
(* all thresholds: the runs are those of the pixels.                           *)
EXTENDS Luma, TLC
CONSTANT N
VARIABLES lt, at, i, runs
vars == <<lt, at, i, runs>>
Init == lt \in 0..N /\ at \in 0..N /\ i = 0 /\ runs = <<>>
Pixel ==
    /\ i < N * N /\ i' = i + 1
    /\ runs' = AddRun2(runs, <<BW(i % N, i \div N, lt, at, 255), 1>>)
    /\ UNCHANGED <<lt, at>>
Spec == Init /\ [][Pixel]_vars
SameRuns == i = N * N => runs = Grid(lt, at, N)
(* More of either never turns black to white. *)
Monotone == i < N * N =>
    LET l == i % N a == i \div N IN
    BW(l, a, lt, at, 255) = 0 => BW(l + 1, a, lt, at, 255) = 0 /\ BW(l, a + 1, lt, at, 255) = 0
=============================================================================
