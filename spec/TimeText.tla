------------------------------ MODULE TimeText ------------------------------
(* Times as text.  TLC's integers have 32 bits, so 64-bit milliseconds are     *)
(* sequences of decimal digits, most significant first, without leading zeros  *)
(* (<<0>> for zero).                                                           *)
EXTENDS Integers, Sequences, SequencesExt

RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d

(* [q, r] with d = q * k + r, 0 <= r < k: long division, digit by digit. *)
DivMod(d, k) ==
    LET step(a, x) == LET n == a.r * 10 + x IN [q |-> Append(a.q, n \div k), r |-> n - (n \div k) * k]
        z == FoldLeft(step, [q |-> <<>>, r |-> 0], d)
    IN [q |-> Strip(z.q), r |-> z.r]
(* d * k + c, digit by digit from the right. *)
RECURSIVE CarryOut(_)
CarryOut(c) == IF c < 10 THEN <<c>> ELSE Append(CarryOut(c \div 10), c - (c \div 10) * 10)
MulAdd(d, k, c) ==
    LET step(x, a) == LET n == x * k + a.c IN [d |-> <<n - (n \div 10) * 10>> \o a.d, c |-> n \div 10]
        z == FoldRight(step, d, [d |-> <<>>, c |-> c])
    IN Strip(CarryOut(z.c) \o z.d)

Ascii(d) == [i \in DOMAIN d |-> 48 + d[i]]
RECURSIVE Padded(_, _)
Padded(d, n) == IF Len(d) >= n THEN d ELSE Padded(<<0>> \o d, n)
Num(n) == CarryOut(n)          \* decimal digits of a small number

(* --- writing: t = [neg, d] *)
Parts(d) ==
    LET ms == DivMod(d, 1000)
        s == DivMod(ms.q, 60)
        m == DivMod(s.q, 60)
    IN [h |-> m.q, m |-> m.r, s |-> s.r, ms |-> ms.r]
Text(t, sep) ==
    LET p == Parts(t.d)
    IN (IF t.neg THEN <<45>> ELSE <<>>) \o Ascii(Padded(p.h, 2)) \o <<58>> \o Ascii(Padded(Num(p.m), 2)) \o <<58>>
       \o Ascii(Padded(Num(p.s), 2)) \o <<sep>> \o Ascii(Padded(Num(p.ms), 3))
SrtText(t) == Text(t, 44)
VttText(t) == Text(t, 46)
IdxText(t) == Text(t, 58)

(* --- reading: the time that a text of the notation denotes, or <<>> if it is *)
(* none.                                                                       *)
Digits(s, i, j) == /\ 1 <= i /\ j <= Len(s)
                   /\ \A k \in i..j : s[k] \in 48..57
ValueOf(s, i, j) == [k \in 1..(j - i + 1) |-> s[i + k - 1] - 48]
Small(d) == FoldLeft(LAMBDA a, x : a * 10 + x, 0, d)
Denotes(text, sep) ==
    LET neg == text # <<>> /\ text[1] = 45
        s == IF neg THEN Tail(text) ELSE text
        n == Len(s)
        h == n - 10        \* length of the hours: the rest is :mm:ss?mmm
    IN IF /\ h >= 2 /\ Digits(s, 1, h) /\ (h > 2 => s[1] # 48)
          /\ s[h + 1] = 58 /\ Digits(s, h + 2, h + 3) /\ s[h + 4] = 58 /\ Digits(s, h + 5, h + 6)
          /\ s[h + 7] = sep /\ Digits(s, h + 8, h + 10)
          /\ Small(ValueOf(s, h + 2, h + 3)) < 60 /\ Small(ValueOf(s, h + 5, h + 6)) < 60
       THEN LET secs == MulAdd(MulAdd(Strip(ValueOf(s, 1, h)), 60, Small(ValueOf(s, h + 2, h + 3))), 60, Small(ValueOf(s, h + 5, h + 6)))
            IN <<[neg |-> neg, d |-> MulAdd(secs, 1000, Small(ValueOf(s, h + 8, h + 10)))]>>
       ELSE <<>>

(* --- order, opposite *)
LessDigits(a, b) ==
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Before(s, t) ==
    IF s.neg # t.neg THEN s.neg
    ELSE IF s.neg THEN LessDigits(t.d, s.d) ELSE LessDigits(s.d, t.d)
Compared(s, t) == IF Before(s, t) THEN -1 ELSE IF Before(t, s) THEN 1 ELSE 0
Opposite(t) == [t EXCEPT !.neg = t.d # <<0>> /\ ~t.neg]

(* --- the time point of n / 1024 seconds: its whole milliseconds *)
OfSeconds(neg, n) ==
    LET ms == DivMod(MulAdd(n, 1000, 0), 1024).q
    IN [neg |-> neg /\ ms # <<0>>, d |-> ms]
=============================================================================
