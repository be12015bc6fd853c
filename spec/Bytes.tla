------------------------------- MODULE Bytes -------------------------------
(* Sequences of bytes, runs of equal values, and the arithmetic that TLC's  *)
(* 32-bit integers need help with.                                          *)
EXTENDS Integers, Sequences, SequencesExt, Clock90

U16(s, i) == s[i] * 256 + s[i + 1]
U24(s, i) == s[i] * 65536 + s[i + 1] * 256 + s[i + 2]
Slice(s, from, n) == SubSeq(s, from, from + n - 1)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* floor(t / 90) for the unsigned 32-bit number t stored big-endian at i.    *)
Ticks90(s, i) == Ticks90Of(U16(s, i), U16(s, i + 2))

(* Runs: a picture is a sequence of maximal runs <<k1, .., km, n>>, n equal *)
(* pixels of value <<k1, .., km>>.                                          *)
RunKey(r) == SubSeq(r, 1, Len(r) - 1)
RunLen(r) == r[Len(r)]

AddRun(runs, key, n) ==
    IF n = 0 THEN runs
    ELSE IF runs # <<>> /\ RunKey(runs[Len(runs)]) = key
         THEN [runs EXCEPT ![Len(runs)] = Append(key, @[Len(@)] + n)]
         ELSE Append(runs, Append(key, n))

TotalRuns(runs) == FoldLeft(LAMBDA acc, r : acc + RunLen(r), 0, runs)

(* The first n pixels.                                                      *)
TakeRuns(runs, n) ==
    LET step(acc, r) ==
            LET k == Min2(RunLen(r), n - acc.n)
            IN [n |-> acc.n + k, runs |-> AddRun(acc.runs, RunKey(r), k)]
    IN FoldLeft(step, [n |-> 0, runs |-> <<>>], runs).runs

(* Apply f to the values of the runs.                                       *)
MapRuns(f(_), runs) ==
    FoldLeft(LAMBDA acc, r : AddRun(acc, f(RunKey(r)), RunLen(r)), <<>>, runs)

ConcatRuns(a, b) == FoldLeft(LAMBDA acc, r : AddRun(acc, RunKey(r), RunLen(r)), a, b)

(* The value of pixel i (from 0).                                           *)
RECURSIVE RunAt(_, _)
RunAt(runs, i) ==
    IF i < RunLen(runs[1]) THEN RunKey(runs[1]) ELSE RunAt(Tail(runs), i - RunLen(runs[1]))

(* Optional values. *)
None == <<>>
Some(x) == <<x>>
IsSome(o) == o # <<>>
Get(o) == o[1]
=============================================================================
