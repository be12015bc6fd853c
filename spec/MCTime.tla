------------------------------- MODULE MCTime -------------------------------
(* A clock that jumps: every time reached is written and read back.  The      *)
(* times are numbers n below 2^31 as they are, and beyond it digits that      *)
(* begin with the digits of High.                                              *)
EXTENDS TimeText, TLC, Json
CONSTANTS Jumps, LastMs, High, Steps, Emit
MHigh == {<<>>, <<9>>, <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6>>}
VARIABLES now, hi, neg, steps, phase
vars == <<now, hi, neg, steps, phase>>

D == IF hi = <<>> THEN Num(now) ELSE Strip(hi \o Padded(Num(now), 9))
T == [neg |-> neg /\ D # <<0>>, d |-> D]
Init == now = 0 /\ steps = 0 /\ hi \in High /\ neg \in BOOLEAN /\ phase = "at"
Jump == phase = "at" /\ steps < Steps /\ steps' = steps + 1 /\ \E j \in Jumps : now + j <= LastMs /\ now' = now + j /\ UNCHANGED <<hi, neg, phase>>
Show ==
    /\ phase = "at" /\ phase' = "shown" /\ UNCHANGED <<now, hi, neg, steps>>
    /\ Emit => PrintT("@@" \o ToJson([neg |-> T.neg, d |-> T.d, srt |-> SrtText(T), vtt |-> VttText(T), idx |-> IdxText(T)]))
Spec == Init /\ [][Jump \/ Show]_vars

(* The text denotes the time, and nothing but it. *)
Denoted == /\ Denotes(SrtText(T), 44) = <<T>> /\ Denotes(VttText(T), 46) = <<T>> /\ Denotes(IdxText(T), 58) = <<T>>
           /\ Denotes(SrtText(T), 46) = <<>>
(* The digit arithmetic is the arithmetic of integers. *)
Arithmetic ==
    hi = <<>> =>
        LET p == Parts(Num(now))
        IN /\ p.ms = now % 1000 /\ p.s = (now \div 1000) % 60
           /\ p.m = (now \div 60000) % 60 /\ p.h = Num(now \div 3600000)
           /\ now < 200000000 => MulAdd(Num(now), 10, 7) = Num(now * 10 + 7)
           /\ \A k \in {7, 60, 90, 1000} : DivMod(Num(now), k) = [q |-> Num(now \div k), r |-> now % k]
(* Division undoes multiplication, also beyond 32 bits. *)
Undoes == \A k \in {7, 60, 90, 1000} : \A c \in {0, k - 1} : DivMod(MulAdd(D, k, c), k) = [q |-> D, r |-> c]
(* Fields of constant width. *)
Shape == LET s == SrtText(T) IN Len(s) >= 12 /\ s[Len(s) - 3] = 44 /\ s[Len(s) - 6] = 58 /\ s[Len(s) - 9] = 58
(* The order is that of the integers; the opposite reverses it. *)
Ordered ==
    LET at(n, g) == [neg |-> g /\ n # 0, d |-> Num(n)]
        val(n, g) == IF g THEN 0 - n ELSE n
        sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
    IN \A n \in {0, 1, 9, 10, 999, 1000, 59001, now} : \A g, h \in BOOLEAN :
          /\ hi = <<>> => Compared(at(now, g), at(n, h)) = sign(IF g = h THEN val(now - n, g) ELSE val(now + n, g))
          /\ Compared(T, at(n, h)) = 0 - Compared(at(n, h), T)
          /\ Compared(Opposite(T), Opposite(at(n, h))) = 0 - Compared(T, at(n, h))
          /\ Opposite(Opposite(T)) = T
(* Whole milliseconds of a number of seconds. *)
Seconds ==
    LET s == OfSeconds(neg, MulAdd(D, 1024, 0))
    IN /\ s.d = MulAdd(D, 1000, 0)
       /\ hi = <<>> /\ now < 2000000 => OfSeconds(FALSE, Num(now)).d = Num((now * 1000) \div 1024)
=============================================================================
