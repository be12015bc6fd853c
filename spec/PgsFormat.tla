----------------------------- MODULE PgsFormat -----------------------------
(* How a SUP stream is written: scripts of named segments and their bytes,   *)
(* and - independently of Pgs, which reads bytes segment by segment - what   *)
(* a reader has to return for a script.                                      *)
(*                                                                           *)
(*   P W     composition and window segments                                 *)
(*   Q       a composition whose content looks like an end marker            *)
(*   A B     palettes (B lists its entries in another order, and has gaps)   *)
(*   1 2     complete objects                                                *)
(*   f l     the first and the last part of object 3                         *)
(*   g m     the same for object 4, cut elsewhere                            *)
(*   E       end marker                                                      *)
(*   x y z v u invalid segments: palettes x, z, objects y, v, u              *)
EXTENDS PgsRle, FiniteSets

Header(k, type, size) ==
    <<80, 71>> \o <<200 * (k % 2), k, 3 * k, 89 + k>> \o <<0, 0, 0, 0>> \o <<type, size \div 256, size % 256>>
Segm(k, type, payload) == Header(k, type, Len(payload)) \o payload

PalA == <<[id |-> 0, l |-> 16, a |-> 0], [id |-> 1, l |-> 200, a |-> 255], [id |-> 2, l |-> 30, a |-> 128]>>
PalB == <<[id |-> 2, l |-> 77, a |-> 10], [id |-> 0, l |-> 5, a |-> 6]>>
PalBytes(p) == FoldLeft(LAMBDA acc, e : acc \o <<e.id, e.l, 1, 2, e.a>>, <<0, 0>>, p)

(* Objects: size, data and pixels of colours (as runs). *)
Obj(n) ==
    CASE n = 1 -> [w |-> 2, h |-> 1, data |-> <<1, 2, 0, 0>>, runs |-> <<<<1, 1>>, <<2, 1>>>>]
      [] n = 2 -> [w |-> 3, h |-> 2, data |-> <<0, 131, 2, 0, 0, 0, 3, 0, 0>>, runs |-> <<<<2, 3>>, <<0, 3>>>>]
      [] n = 3 -> [w |-> 70, h |-> 1, data |-> <<0, 64, 69, 1, 0, 0>>, runs |-> <<<<0, 69>>, <<1, 1>>>>]
      [] n = 4 -> [w |-> 1, h |-> 2, data |-> <<2, 0, 0, 1, 0, 0>>, runs |-> <<<<2, 1>>, <<1, 1>>>>]
ObjBytes(n, flag, from, to) ==
    LET o == Obj(n)
        len == Len(o.data) + 4
        head == IF flag = 64 THEN <<>> ELSE <<0, len \div 256, len % 256, 0, o.w, 0, o.h>>
    IN <<0, n, 0, flag>> \o head \o SubSeq(o.data, from, to)

(* Segment number k of a script. *)
SegBytes(k, c) ==
    CASE c = "P" -> Segm(k, 22, <<1, 2, 3, 80, 71>>)
      [] c = "W" -> Segm(k, 23, <<>>)
      [] c = "Q" -> Segm(k, 22, Header(k, 128, 0))
      [] c = "A" -> Segm(k, 20, PalBytes(PalA))
      [] c = "B" -> Segm(k, 20, PalBytes(PalB))
      [] c = "1" -> Segm(k, 21, ObjBytes(1, 192, 1, 4))
      [] c = "2" -> Segm(k, 21, ObjBytes(2, 192, 1, 9))
      [] c = "f" -> Segm(k, 21, ObjBytes(3, 128, 1, 2))
      [] c = "l" -> Segm(k, 21, ObjBytes(3, 64, 3, 6))
      [] c = "g" -> Segm(k, 21, ObjBytes(4, 128, 1, 0))
      [] c = "m" -> Segm(k, 21, ObjBytes(4, 64, 1, 6))
      [] c = "E" -> Segm(k, 128, <<>>)
      [] c = "x" -> Segm(k, 20, <<0, 0, 1, 2, 3>>)
      [] c = "z" -> Segm(k, 20, <<>>)
      [] c = "y" -> Segm(k, 21, <<0, 1, 0, 0, 0, 0, 5, 0, 1, 0, 1, 1>>)
      [] c = "v" -> Segm(k, 21, <<0, 1, 0, 192, 0, 0, 9, 0, 1, 0, 1, 1>>)
      [] c = "u" -> Segm(k, 21, <<0, 1>>)
      \* What is missing behind "f", but not called the last part.
      [] c = "k" -> Segm(k, 21, <<0, 3, 0, 192>> \o SubSeq(Obj(3).data, 3, 6))
      [] c = "j" -> Segm(k, 21, <<0, 3, 0, 128>> \o SubSeq(Obj(3).data, 3, 6))
ScriptBytes(s) == FoldLeft(LAMBDA acc, k : acc \o SegBytes(k, s[k]), <<>>, [k \in 1..Len(s) |-> k])

(* ---- What has to be returned -------------------------------------------- *)
Palettes == {"A", "B"}
WholeObjects == {"1", "2"}
Firsts == {"f", "g"}
Lasts == {"l", "m"}
Invalid == {"x", "y", "z", "v", "u", "k", "j"}
ObjectItems == WholeObjects \cup Firsts \cup Lasts \cup {"y", "v", "u", "k", "j"}

EndsOf(s) == {i \in DOMAIN s : s[i] = "E"}
NumEnds(s, i) == Cardinality({j \in EndsOf(s) : j <= i})
EndNo(s, n) == CHOOSE i \in EndsOf(s) : NumEnds(s, i) = n
NumPairs(s) == Cardinality(EndsOf(s)) \div 2
(* Positions of the two display sets of caption n (of what follows the last  *)
(* caption, for n = NumPairs + 1).                                           *)
From(s, n) == IF n = 1 THEN 1 ELSE EndNo(s, 2 * n - 2) + 1
To(s, n) == IF n > NumPairs(s) THEN Len(s) ELSE EndNo(s, 2 * n)
Span(s, n) == From(s, n)..To(s, n)

(* The object segment before position i of caption n, 0 if none. *)
PrevObj(s, n, i) ==
    LET c == {j \in Span(s, n) : j < i /\ s[j] \in ObjectItems}
    IN IF c = {} THEN 0 ELSE CHOOSE j \in c : \A k \in c : k <= j
Completes(s, n, i) ==
    LET p == PrevObj(s, n, i)
        pending == p # 0 /\ s[p] \in Firsts /\ ~(PrevObj(s, n, p) # 0 /\ s[PrevObj(s, n, p)] \in Firsts)
    IN \/ s[i] \in WholeObjects /\ ~pending
       \/ s[i] = "l" /\ pending /\ s[p] = "f"
       \/ s[i] = "m" /\ pending /\ s[p] = "g"
(* A part where it does not belong, an object inside another one. *)
Misplaced(s, n, i) ==
    /\ s[i] \in ObjectItems /\ s[i] \notin Invalid
    /\ ~Completes(s, n, i)
    /\ s[i] \in Firsts =>
          LET p == PrevObj(s, n, i) IN p # 0 /\ s[p] \in Firsts
Done1(s, n) == {i \in Span(s, n) : Completes(s, n, i)}
(* The palette of the object completed at i: the last one since the object  *)
(* before it.                                                               *)
PalettesFor(s, n, i) ==
    {j \in Span(s, n) : j < i /\ s[j] \in Palettes /\ \A k \in Done1(s, n) : k < i => k < j}
PaletteOf(s, n, i) == CHOOSE j \in PalettesFor(s, n, i) : \A k \in PalettesFor(s, n, i) : k <= j
Faults(s, n) ==
    {i \in Span(s, n) : s[i] \in Invalid \/ Misplaced(s, n, i)
                         \/ (i \in Done1(s, n) /\ PalettesFor(s, n, i) = {})}
FaultKind(s, n) ==
    LET i == CHOOSE i \in Faults(s, n) : \A j \in Faults(s, n) : i <= j
    IN IF i \in Done1(s, n) THEN "MissingPalette" ELSE "Other"
ImageOf(s, n) ==
    LET i == CHOOSE i \in Done1(s, n) : \A j \in Done1(s, n) : j <= i
    IN [obj |-> CASE s[i] = "1" -> Obj(1) [] s[i] = "2" -> Obj(2) [] s[i] = "l" -> Obj(3) [] s[i] = "m" -> Obj(4),
        pal |-> IF s[PaletteOf(s, n, i)] = "A" THEN PalA ELSE PalB]
TimeOf(i) ==       \* of segment i: its 32-bit time stamp / 90
    LET hi == 200 * (i % 2) * 256 + i
        lo == 3 * i * 256 + 89 + i
    IN Ticks90Of(hi, lo)

Caption(s, n, mode) ==
    LET a == TimeOf(EndNo(s, 2 * n - 1))
        b == TimeOf(EndNo(s, 2 * n))
    IN IF mode = "time" THEN [t |-> "cap", s |-> a, e |-> b, w |-> 0, h |-> 0, big |-> FALSE, px |-> <<>>]
       ELSE IF Faults(s, n) # {} THEN [t |-> "err", k |-> FaultKind(s, n)]
       ELSE IF Done1(s, n) = {} THEN [t |-> "err", k |-> "MissingImage"]
       ELSE LET i == ImageOf(s, n)
            IN [t |-> "cap", s |-> a, e |-> b, w |-> i.obj.w, h |-> i.obj.h, big |-> FALSE,
                px |-> MapRuns(LAMBDA k : Look(i.pal, k[1]), i.obj.runs)]
Leftover(s, mode) ==        \* an unfinished caption that is spoilt already
    LET n == NumPairs(s) + 1
    IN IF mode = "image" /\ Faults(s, n) # {} THEN <<[t |-> "err", k |-> FaultKind(s, n)]>> ELSE <<>>
Expected(s, mode) ==
    [n \in 1..NumPairs(s) |-> Caption(s, n, mode)] \o Leftover(s, mode) \o <<[t |-> "end"]>>
=============================================================================
