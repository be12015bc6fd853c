------------------------------ MODULE Readers ------------------------------
(* Readers of the same data: each gives the items of the data in order and then *)
(* the end, again and again, whatever the others do.                            *)
EXTENDS Integers, Sequences

CONSTANTS Items(_),     \* what the data of a run holds: a sequence that ends with the end
          Count(_)      \* number of readers
VARIABLES run, cur,     \* per reader: requests answered so far
          gave,         \* per reader: the answers
          step
rdVars == <<run, cur, gave, step>>
Answer(r, n) == IF n <= Len(Items(r)) THEN Items(r)[n] ELSE Items(r)[Len(Items(r))]
RdInitAt(r) == run = r /\ step = 0 /\ cur = [i \in 1..Count(r) |-> 0] /\ gave = [i \in 1..Count(r) |-> <<>>]
Give(i, n, answers) ==
    /\ cur' = [cur EXCEPT ![i] = @ + n]
    /\ gave' = [gave EXCEPT ![i] = @ \o answers]
    /\ step' = step + 1 /\ UNCHANGED run
Request(i) == Give(i, 1, <<Answer(run, cur[i] + 1)>>)

(* Several requests at once: some are skipped, or given together, or counted.   *)
NumItems == Len(Items(run)) - 1
Left(i) == IF cur[i] < NumItems THEN NumItems - cur[i] ELSE 0
Few(i, k) == IF k < Left(i) THEN k ELSE Left(i)
Do(i, op, k) ==
    CASE op = "next" -> Request(i)
      [] op \in {"nth", "skip"} -> Give(i, k + 1, <<Answer(run, cur[i] + k + 1)>>)
      [] op = "take" -> Give(i, k, [j \in 1..Few(i, k) |-> Answer(run, cur[i] + j)])
      [] op = "count" -> Give(i, Left(i), <<[t |-> "count", n |-> Left(i)]>>)
      [] op = "last" -> Give(i, Left(i), <<IF Left(i) = 0 THEN Answer(run, NumItems + 1) ELSE Answer(run, NumItems)>>)
      [] op = "fold" -> Give(i, Left(i), [j \in 1..Left(i) |-> Answer(run, cur[i] + j)])
=============================================================================
