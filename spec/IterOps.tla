------------------------------ MODULE IterOps ------------------------------
(* What the operations of an iterator give over the items it stands for (a   *)
(* sequence of runs: the components of an item, then how many times).        *)
(* `pos`: how many items have been taken.  Whatever the operation, it takes   *)
(* the items one by one from there; none is given twice, none is left out.    *)
EXTENDS Bytes

DropRuns(runs, n) ==
    LET step(acc, r) ==
            LET k == Min2(RunLen(r), acc.n)
            IN [n |-> acc.n - k, runs |-> AddRun(acc.runs, RunKey(r), RunLen(r) - k)]
    IN FoldLeft(step, [n |-> n, runs |-> <<>>], runs).runs

(* Where the first item `key` of the runs is (from 0), or their number.       *)
Where(runs, key) ==
    FoldLeft(LAMBDA acc, r : IF acc.hit \/ RunKey(r) = key THEN [acc EXCEPT !.hit = TRUE]
                             ELSE [acc EXCEPT !.n = @ + RunLen(r)],
             [hit |-> FALSE, n |-> 0], runs)

Ans(res, pos) == [res |-> res, pos |-> pos]

(* The operations; `len` reports three lengths (len, and the two bounds of    *)
(* size_hint); the last six use the iterator up.                              *)
Ending == {"rest", "fold", "for", "collect", "count", "last", "step"}
Apply(runs, total, pos, op) ==
    LET left == total - pos
        kind == op[1]
        item(i) == IF i < total THEN RunAt(runs, i) ELSE <<>>
        skip(k) == Ans(item(pos + k), Min2(pos + k + 1, total))
    IN CASE kind = "next" -> skip(0)
         [] kind \in {"nth", "skip"} -> skip(op[2])
         [] kind = "len" -> Ans(<<left, left, left>>, pos)
         [] kind = "take" -> Ans(TakeRuns(DropRuns(runs, pos), op[2]), Min2(pos + op[2], total))
         [] kind = "find" ->
                LET w == Where(DropRuns(runs, pos), op[2])
                IN IF w.hit THEN Ans(<<w.n>>, pos + w.n + 1) ELSE Ans(<<>>, total)
         [] kind \in {"rest", "fold", "for", "collect"} -> Ans(DropRuns(runs, pos), total)
         [] kind = "count" -> Ans(<<left>>, total)
         [] kind = "last" -> Ans(IF left = 0 THEN <<>> ELSE item(total - 1), total)
         [] kind = "step" ->
                LET n == (left + op[2] - 1) \div op[2]
                IN Ans(FoldLeft(LAMBDA acc, i : AddRun(acc, item(pos + (i - 1) * op[2]), 1), <<>>, [i \in 1..n |-> i]), total)

RECURSIVE Answers(_, _, _, _)
Answers(runs, total, pos, ops) ==
    IF ops = <<>> THEN <<>>
    ELSE LET a == Apply(runs, total, pos, Head(ops))
         IN <<a.res>> \o Answers(runs, total, a.pos, Tail(ops))
=============================================================================
