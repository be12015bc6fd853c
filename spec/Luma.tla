-------------------------------- MODULE Luma --------------------------------
(* Black and white: black if both luminance and alpha reach their thresholds.  *)
EXTENDS Integers, Sequences

BW(l, a, lt, at, white) == IF a >= at /\ l >= lt THEN 0 ELSE white

(* All pixels of n luminances for each of n alphas, alpha by alpha, as maximal  *)
(* runs <<value, count>>.                                                      *)
Row(a, lt, at, n) ==
    IF a < at \/ lt >= n THEN << <<255, n>> >>
    ELSE IF lt = 0 THEN << <<0, n>> >> ELSE << <<255, lt>>, <<0, n - lt>> >>
AddRun2(s, r) == IF s # <<>> /\ s[Len(s)][1] = r[1] THEN [s EXCEPT ![Len(s)][2] = @ + r[2]] ELSE Append(s, r)
RECURSIVE AddAll(_, _)
AddAll(s, t) == IF t = <<>> THEN s ELSE AddAll(AddRun2(s, t[1]), Tail(t))
RECURSIVE Rows(_, _, _, _, _)
Rows(s, a, lt, at, n) == IF a = n THEN s ELSE Rows(AddAll(s, Row(a, lt, at, n)), a + 1, lt, at, n)
(* Rows below the threshold at once. *)
Grid(lt, at, n) ==
    Rows(IF at = 0 THEN <<>> ELSE << <<255, n * (IF at < n THEN at ELSE n)>> >>, IF at < n THEN at ELSE n, lt, at, n)
=============================================================================
