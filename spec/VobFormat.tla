------------------------------ MODULE VobFormat ------------------------------
(* How a VobSub sub file is written, and - independently of VobSub, which     *)
(* reads bytes - what a reader has to return for what was written.            *)
EXTENDS Bytes, FiniteSets

Flat(seqs) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, seqs)
Upto(n) == [i \in 1..n |-> i]
B2(n) == <<n \div 256, n % 256>>

(* ---- Time stamps: limbs, milliseconds and whether that is exact ---------- *)
Stamps == <<
    [p |-> <<0, 1, 100>>,          ms |-> 365,      exact |-> FALSE],
    [p |-> <<7, 32767, 32767>>,    ms |-> 95443717, exact |-> FALSE],
    [p |-> <<0, 0, 90>>,           ms |-> 1,        exact |-> TRUE],
    [p |-> <<4, 0, 0>>,            ms |-> 47721858, exact |-> FALSE],
    [p |-> <<0, 13, 24016>>,       ms |-> 5000,     exact |-> TRUE],
    [p |-> <<2, 16384, 1>>,        ms |-> 29826161, exact |-> FALSE] >>
StampBytes(tag, p) ==
    <<tag * 16 + p[1] * 2 + 1,
      p[2] \div 128, (p[2] % 128) * 2 + 1,
      p[3] \div 128, (p[3] % 128) * 2 + 1>>

(* ---- Packs and packets: variant v of the options -------------------------- *)
PackHeader(v) ==
    LET stuff == (3 * v) % 8
    IN <<0, 0, 1, 186>>
       \o <<64 + 8 * (v % 8) + 4 + (v % 4), 17 * (v % 16), 255 - 8 * (v % 2), 200, 4 + (v % 4), 1 + 2 * v>>
       \o <<1, 137, 195, 8 * (v % 32) + stuff>>
       \o [i \in 1..stuff |-> 255]
NoStamp == 0
(* stamp: 0 or an index of Stamps. *)
Packet(v, stamp, id, data) ==
    LET both == stamp # 0 /\ v % 3 = 1
        head == (IF stamp = 0 THEN <<>>
                 ELSE IF both THEN StampBytes(3, Stamps[stamp].p) \o StampBytes(1, <<1, 2, 3>>)
                 ELSE StampBytes(2, Stamps[stamp].p))
                \o [i \in 1..(v % 4) |-> 255]
        flags == (IF stamp = 0 THEN 0 ELSE IF both THEN 192 ELSE 128) + (v % 2) * 32
        body == <<128 + (v % 64), flags, Len(head)>> \o head \o <<id>> \o data
    IN PackHeader(v) \o <<0, 0, 1, 189>> \o B2(Len(body)) \o body
(* Not of the stream: padding, damaged, foreign, no pack at all. *)
Junk(v, kind) ==
    CASE kind = "bytes" -> <<0, 0, 0, 1, 187, 0, 0, 1>>
      [] kind = "pad" -> PackHeader(v) \o <<0, 0, 1, 190, 0, 3, 255, 255, 255>>
      [] kind = "mark" -> [Packet(v, 1, 32, <<0, 9, 9>>) EXCEPT ![10] = @ - 1]
      [] kind = "head" -> PackHeader(v) \o <<0, 0, 1, 189, 0, 5, 65, 0, 0, 32, 7>>
      [] kind = "flag" -> PackHeader(v) \o <<0, 0, 1, 189, 0, 5, 129, 64, 0, 32, 7>>
      [] kind = "cut" -> PackHeader(v) \o <<0, 0, 1, 189, 1, 0, 129, 0, 0, 32, 7>>

(* ---- Control data ----------------------------------------------------------- *)
AreaBytes(x1, x2, y1, y2) ==
    <<5, x1 \div 16, (x1 % 16) * 16 + x2 \div 256, x2 % 256,
      y1 \div 16, (y1 % 16) * 16 + y2 \div 256, y2 % 256>>
(* A subtitle: bitmap bytes (at offset 4), sequences [date, bytes (with the     *)
(* end byte)], how they are linked.                                            *)
SeqsLen(seqs, n) == FoldLeft(LAMBDA acc, i : acc + 4 + Len(seqs[i].b), 0, Upto(n))
RawSub(bitmap, seqs, link, first) ==
    LET c == 4 + Len(bitmap)
        offs(i) == c + SeqsLen(seqs, i - 1)
        n == Len(seqs)
        total == offs(n + 1)
        next(i) == IF i = n
                   THEN CASE link = "back" -> offs(n) - 1 [] link = "far" -> total [] OTHER -> offs(n)
                   ELSE IF link = "self" THEN offs(i) ELSE offs(i + 1)
        one(i) == B2(seqs[i].date) \o B2(next(i)) \o seqs[i].b
    IN B2(total) \o B2(IF first < 0 THEN c ELSE first) \o bitmap \o Flat([i \in 1..n |-> one(i)])

SubEvent(stamp, start, stop, x, y, w, h, pal, al, px) ==
    LET ms == Stamps[stamp].ms
    IN [t |-> "sub", s |-> ms + 10 * start, e |-> IF stop < 0 THEN ms + 10 * start + 5000 ELSE ms + 10 * stop,
        exact |-> Stamps[stamp].exact, x |-> x, y |-> y, w |-> w, h |-> h, pal |-> pal, al |-> al, px |-> px]
Bad == [t |-> "err", k |-> "Other", miss |-> <<>>]
Lacks(m) == [t |-> "err", k |-> m[1], miss |-> m]
Over == [t |-> "end"]

(* ---- Two plain subtitles ------------------------------------------------------ *)
(* Rows that are filled to their end: two bytes each. *)
Fill(v) == <<0, v>>
PlainSeq == <<1, 3, 1, 35, 4, 69, 103>> \o AreaBytes(700, 703, 4000, 4002) \o <<6, 0, 4, 0, 8, 255>>
Plain(k) ==
    IF k = 1
    THEN RawSub(Fill(1) \o Fill(2) \o Fill(3), <<[date |-> 0, b |-> PlainSeq], [date |-> 200, b |-> <<2, 255>>]>>, "ok", -1)
    ELSE RawSub(<<87, 87>>, <<[date |-> 7, b |-> <<6, 0, 4, 0, 5>> \o AreaBytes(0, 1, 15, 16) \o <<4, 0, 255, 3, 16, 50, 1, 255>>]>>, "ok", -1)
PlainEvent(k, stamp) ==
    IF k = 1
    THEN SubEvent(stamp, 0, 200, 700, 4000, 4, 3, <<3, 2, 1, 0>>, <<7, 6, 5, 4>>,
                  <<<<1, 4>>, <<3, 4>>, <<2, 4>>>>)
    ELSE SubEvent(stamp, 7, -1, 0, 15, 2, 2, <<2, 3, 0, 1>>, <<15, 15, 0, 0>>,
                  <<<<1, 1>>, <<3, 1>>, <<1, 1>>, <<3, 1>>>>)

(* ==== Packetisation ============================================================ *)
(* Letters: S whole 1; a b c its parts, B b with a stamp, C c with surplus;    *)
(* T whole 2 on another stream; u v its parts; j p m f g junk; n a packet      *)
(* without stamp; h a packet of one byte; z a packet cut by the end.           *)
Cut1 == 5
Cut2 == 20
Part(c) ==
    CASE c = "S" -> [id |-> 32, stamped |-> TRUE, sub |-> 1, from |-> 1, to |-> Len(Plain(1))]
      [] c = "a" -> [id |-> 32, stamped |-> TRUE, sub |-> 1, from |-> 1, to |-> Cut1]
      [] c = "b" -> [id |-> 32, stamped |-> FALSE, sub |-> 1, from |-> Cut1 + 1, to |-> Cut2]
      [] c = "B" -> [id |-> 32, stamped |-> TRUE, sub |-> 1, from |-> Cut1 + 1, to |-> Cut2]
      [] c = "c" -> [id |-> 32, stamped |-> FALSE, sub |-> 1, from |-> Cut2 + 1, to |-> Len(Plain(1))]
      [] c = "C" -> [id |-> 32, stamped |-> FALSE, sub |-> 1, from |-> Cut2 + 1, to |-> Len(Plain(1)) + 3]
      [] c = "T" -> [id |-> 33, stamped |-> TRUE, sub |-> 2, from |-> 1, to |-> Len(Plain(2))]
      [] c = "u" -> [id |-> 33, stamped |-> TRUE, sub |-> 2, from |-> 1, to |-> 2]
      [] c = "v" -> [id |-> 33, stamped |-> FALSE, sub |-> 2, from |-> 3, to |-> Len(Plain(2))]
Parts == {"S", "a", "b", "B", "c", "C", "T", "u", "v"}
Junks == {"j", "p", "m", "f", "g"}
PartData(c) == LET p == Part(c) IN SubSeq(Plain(p.sub) \o <<1, 2, 3>>, p.from, p.to)
StampNo(i) == 1 + (i % 6)
ItemBytes(c, i) ==
    CASE c \in Parts -> Packet(i, IF Part(c).stamped THEN StampNo(i) ELSE 0, Part(c).id, PartData(c))
      [] c = "j" -> Junk(i, "bytes") [] c = "p" -> Junk(i, "pad") [] c = "m" -> Junk(i, "mark")
      [] c = "f" -> Junk(i, "head") [] c = "g" -> Junk(i, "flag") [] c = "z" -> Junk(i, "cut")
      [] c = "n" -> Packet(i, 0, 32, <<0, 2, 1>>)
      [] c = "h" -> Packet(i, StampNo(i), 32, <<0>>)
PackBytes(s) == Flat([i \in 1..Len(s) |-> ItemBytes(s[i], i)])

(* What the letters from i on give, `open` being the subtitle in progress:     *)
(* [sub, id, got, stamp] or None.  legal: only parts in order are collected -    *)
(* other mixtures give other content, of which nothing is said here.            *)
Nothing == [legal |-> TRUE, ev |-> <<Over>>]
Before(e, r) == [r EXCEPT !.ev = <<e>> \o @]
RECURSIVE PackMeaning(_, _, _)
PackMeaning(s, i, open) ==
    IF i > Len(s) THEN Nothing
    ELSE LET c == s[i]
             go(o) == PackMeaning(s, i + 1, o)
             add(o, to) ==
                 IF to >= Len(Plain(o.sub)) THEN Before(PlainEvent(o.sub, o.stamp), go(None))
                 ELSE go(Some([o EXCEPT !.got = to]))
         IN IF c \in Junks THEN go(open)
            ELSE IF c = "z" THEN [legal |-> i = Len(s), ev |-> <<Bad, Over>>]
            ELSE IF c \in {"n", "h"}
                 THEN IF ~IsSome(open) THEN Before(Bad, go(open))
                      ELSE IF Get(open).id # 32 THEN go(open) ELSE [legal |-> FALSE, ev |-> <<>>]
            ELSE LET p == Part(c) IN
                 IF ~IsSome(open)
                 THEN IF ~p.stamped THEN Before(Bad, go(open))
                      ELSE IF p.from # 1 THEN [legal |-> FALSE, ev |-> <<>>]
                      ELSE add([sub |-> p.sub, id |-> p.id, got |-> 0, stamp |-> StampNo(i)], p.to)
                 ELSE IF p.id # Get(open).id THEN go(open)
                 ELSE IF p.sub = Get(open).sub /\ p.from = Get(open).got + 1 THEN add(Get(open), p.to)
                 ELSE [legal |-> FALSE, ev |-> <<>>]

(* ==== Control commands ========================================================== *)
(* A chain is [seqs: sequences of letters, link].  Letters: s start, e stop,     *)
(* F force, p P colours, l L alphas, a A areas, x an invalid area, o O offsets,  *)
(* U an unknown command that hides what follows it in its sequence.              *)
CtlBytes(c) ==
    CASE c = "s" -> <<1>> [] c = "e" -> <<2>> [] c = "F" -> <<0>>
      [] c = "p" -> <<3, 18, 52>> [] c = "P" -> <<3, 254, 220>>
      [] c = "l" -> <<4, 240, 5>> [] c = "L" -> <<4, 17, 17>>
      [] c = "a" -> AreaBytes(256, 258, 15, 16) [] c = "A" -> AreaBytes(4094, 4095, 0, 1)
      [] c = "x" -> AreaBytes(5, 5, 1, 2)
      [] c = "y" -> AreaBytes(5, 6, 2, 1)
      [] c = "o" -> <<6, 0, 4, 0, 6>> [] c = "O" -> <<6, 0, 6, 0, 6>>
      [] c = "U" -> <<7, 1, 2, 3>>
Dates == <<3, 250, 65535, 77>>
CtlSub(ch) ==
    RawSub(Fill(1) \o Fill(2),
           [i \in 1..Len(ch.seqs) |-> [date |-> Dates[i], b |-> Flat([j \in 1..Len(ch.seqs[i]) |-> CtlBytes(ch.seqs[i][j])]) \o <<255>>]],
           ch.link, -1)
CtlStream(ch) == Packet(1, 1, 32, CtlSub(ch)) \o Packet(2, 2, 32, Plain(2))
(* The commands that are obeyed, in order: <<letter, sequence>>. *)
Seen(ch) ==
    LET one(i) == LET hidden == {j \in DOMAIN ch.seqs[i] : \E k \in 1..j : ch.seqs[i][k] = "U"}
                  IN SelectSeq([j \in DOMAIN ch.seqs[i] |-> <<IF j \in hidden THEN "-" ELSE ch.seqs[i][j], i>>],
                               LAMBDA q : q[1] # "-")
    IN Flat([i \in 1..(IF ch.link = "self" THEN 1 ELSE Len(ch.seqs)) |-> one(i)])
Of(ch, letters) == SelectSeq(Seen(ch), LAMBDA q : q[1] \in letters)
CtlMeaning(ch) ==
    LET st == Of(ch, {"s"})  en == Of(ch, {"e"})
        pa == Of(ch, {"p", "P"})  al == Of(ch, {"l", "L"})
        ar == Of(ch, {"a", "A"})  of == Of(ch, {"o", "O"})
        lack == (IF st = <<>> THEN <<"MissStart">> ELSE <<>>) \o (IF ar = <<>> THEN <<"MissArea">> ELSE <<>>)
                \o (IF pa = <<>> THEN <<"MissPalette">> ELSE <<>>) \o (IF al = <<>> THEN <<"MissAlpha">> ELSE <<>>)
                \o (IF of = <<>> THEN <<"MissOffsets">> ELSE <<>>)
        w == IF ar[1][1] = "a" THEN 3 ELSE 2
        v == IF of[Len(of)][1] = "o" THEN 1 ELSE 2
    IN IF Of(ch, {"x", "y"}) # <<>> \/ ch.link \in {"back", "far"} THEN Bad
       ELSE IF lack # <<>> THEN Lacks(lack)
       ELSE SubEvent(1, Dates[st[1][2]], IF en = <<>> THEN -1 ELSE Dates[en[1][2]],
                     IF w = 3 THEN 256 ELSE 4094, IF w = 3 THEN 15 ELSE 0, w, 2,
                     IF pa[1][1] = "p" THEN <<4, 3, 2, 1>> ELSE <<12, 13, 14, 15>>,
                     IF al[1][1] = "l" THEN <<5, 0, 0, 15>> ELSE <<1, 1, 1, 1>>,
                     IF v = 2 THEN <<<<2, 2 * w>>>> ELSE <<<<1, w>>, <<2, w>>>>)
(* ---- Sequences linked in any way ------------------------------------------------ *)
(* [n, first, to]: n sequences, the first to obey, where each one links to: its   *)
(* number, 0 for the start of the data, n + 1 for their end.                       *)
Linked == << <<"p", "l", "F">>, <<"s", "a">>, <<"o", "e">>, <<"P", "e", "s", "o">> >>
LinkedSeq(g, i) ==
    [date |-> <<3, 250, 65535, 77>>[i],
     b |-> Flat([j \in 1..Len(Linked[i]) |-> CtlBytes(Linked[i][j])]) \o <<255>>]
LinkSub(g) ==
    LET c == 8
        seqs == [i \in 1..g.n |-> LinkedSeq(g, i)]
        offs(i) == IF i = 0 THEN 0 ELSE c + SeqsLen(seqs, i - 1)
        total == offs(g.n + 1)
    IN B2(total) \o B2(offs(g.first)) \o Fill(1) \o Fill(2)
       \o Flat([i \in 1..g.n |-> B2(seqs[i].date) \o B2(offs(g.to[i])) \o seqs[i].b])
LinkStream(g) == Packet(1, 1, 32, LinkSub(g)) \o Packet(2, 2, 32, Plain(2))
(* Obeyed are the sequences that forward links lead to, until one links to itself. *)
RECURSIVE Walk(_, _, _)
Walk(g, i, seen) ==
    IF i > g.n THEN [ok |-> FALSE, seen |-> seen]
    ELSE IF g.to[i] < i THEN [ok |-> FALSE, seen |-> seen \cup {i}]
    ELSE IF g.to[i] = i THEN [ok |-> TRUE, seen |-> seen \cup {i}]
    ELSE Walk(g, g.to[i], seen \cup {i})
LinkMeaning(g) ==
    LET w == Walk(g, g.first, {})
    IN CtlMeaning([seqs |-> [i \in 1..g.n |-> IF i \in w.seen THEN Linked[i] ELSE <<>>],
                   link |-> IF w.ok THEN "ok" ELSE "back"])
LinkEvents(g) == <<LinkMeaning(g), PlainEvent(2, 2), Over>>

CtlEvents(ch) == <<CtlMeaning(ch), PlainEvent(2, 2), Over>>

(* ==== Bitmaps ==================================================================== *)
(* A code [n, v, size]: n pixels (0: to the end of the row) of value v, in size  *)
(* half bytes.  A bitmap is [w, rows].                                            *)
CodeNibs(c) ==
    LET x == 4 * c.n + c.v
    IN CASE c.size = 1 -> <<x>>
         [] c.size = 2 -> <<x \div 16, x % 16>>
         [] c.size = 3 -> <<x \div 256, (x \div 16) % 16, x % 16>>
         [] c.size = 4 -> <<x \div 4096, (x \div 256) % 16, (x \div 16) % 16, x % 16>>
RowBytes(row) ==
    LET nibs == Flat([i \in DOMAIN row |-> CodeNibs(row[i])])
        even == IF Len(nibs) % 2 = 0 THEN nibs ELSE Append(nibs, 13)
    IN [i \in 1..(Len(even) \div 2) |-> even[2 * i - 1] * 16 + even[2 * i]]
(* The pixels of a row: ok if it is exactly full (what follows is not used).      *)
RowMeaning(row, w) ==
    FoldLeft(LAMBDA acc, c :
                IF acc.x = w \/ ~acc.ok THEN acc
                ELSE LET k == IF c.n = 0 THEN w - acc.x ELSE c.n
                     IN IF acc.x + k > w THEN [acc EXCEPT !.ok = FALSE]
                        ELSE [ok |-> TRUE, x |-> acc.x + k, runs |-> AddRun(acc.runs, <<c.v>>, k), used |-> acc.used + 1],
             [ok |-> TRUE, x |-> 0, runs |-> <<>>, used |-> 0], row)
RowFull(row, w) == LET m == RowMeaning(row, w) IN m.ok /\ m.x = w /\ m.used = Len(row)
RowOver(row, w) == ~RowMeaning(row, w).ok
Every(s, par) == SelectSeq([i \in DOMAIN s |-> <<i % 2, s[i]>>], LAMBDA q : q[1] = par)
BmpSub(b) ==
    LET lines(par) == Flat([i \in DOMAIN Every(b.rows, par) |-> RowBytes(Every(b.rows, par)[i][2])])
        even == lines(1)     \* rows are counted from 0: the first is even
        odd == lines(0)
        o == 4 + Len(even)
    IN RawSub(even \o odd,
              <<[date |-> 0, b |-> <<1, 3, 0, 0, 4, 255, 255>> \o AreaBytes(0, b.w - 1, 0, Len(b.rows) - 1)
                                   \o <<6, 0, 4>> \o B2(o) \o <<255>>]>>, "ok", -1)
BmpStream(b) == Packet(3, 3, 32, BmpSub(b)) \o Packet(2, 2, 32, Plain(2))
BmpMeaning(b) ==
    IF \E i \in DOMAIN b.rows : RowOver(b.rows[i], b.w) THEN Bad
    ELSE SubEvent(3, 0, -1, 0, 0, b.w, Len(b.rows), <<0, 0, 0, 0>>, <<15, 15, 15, 15>>,
                  FoldLeft(LAMBDA acc, r : ConcatRuns(acc, RowMeaning(r, b.w).runs), <<>>, b.rows))
BmpEvents(b) == <<BmpMeaning(b), PlainEvent(2, 2), Over>>

(* ==== Invalid subtitles among valid ones ========================================== *)
(* Letters: 1 2 the plain ones; others are invalid.                                *)
WithSeq(bitmap, b) == RawSub(bitmap, <<[date |-> 0, b |-> b]>>, "ok", -1)
Body(offs) == <<1, 3, 1, 35, 4, 69, 103>> \o AreaBytes(1, 3, 1, 2) \o <<6>> \o offs \o <<255>>
BadSub(c) ==
    CASE c = "o" -> WithSeq(Fill(1) \o Fill(2), Body(<<0, 6, 0, 4>>))        \* offsets out of order
      [] c = "r" -> WithSeq(Fill(1) \o Fill(2), Body(<<0, 4, 0, 11>>))       \* ... out of range
      [] c = "R" -> WithSeq(Fill(1) \o Fill(2), Body(<<255, 255, 255, 255>>))
      [] c = "w" -> WithSeq(<<17, 17>>, Body(<<0, 4, 0, 5>>))               \* row longer than the width (4)
      [] c = "c" -> WithSeq(Fill(1), Body(<<0, 4, 0, 8>>))                  \* odd row has no data
      [] c = "b" -> RawSub(Fill(1) \o Fill(2), <<[date |-> 0, b |-> Body(<<0, 4, 0, 6>>)]>>, "back", -1)
      [] c = "f" -> RawSub(Fill(1) \o Fill(2), <<[date |-> 0, b |-> Body(<<0, 4, 0, 6>>)]>>, "far", -1)
      [] c = "n" -> RawSub(Fill(1) \o Fill(2), <<[date |-> 0, b |-> Body(<<0, 4, 0, 6>>)]>>, "ok", 9999)
      [] c = "e" -> LET d == Body(<<0, 4, 0, 6>>) IN WithSeq(Fill(1) \o Fill(2), SubSeq(d, 1, Len(d) - 1))
      [] c = "0" -> <<0, 0>>
      [] c = "3" -> <<0, 3, 0>>
      [] c = "4" -> <<0, 4, 0, 4>>
      [] c = "i" -> WithSeq(Fill(1) \o Fill(2), <<1, 3, 1, 35, 4, 69, 103, 6, 0, 4, 0, 6, 255>>)     \* no area
BadKind(c) == IF c = "i" THEN Lacks(<<"MissArea">>) ELSE Bad
MixItem(c, i) ==
    LET d == IF c = "1" THEN Plain(1) ELSE IF c = "2" THEN Plain(2) ELSE BadSub(c)
        k == IF i % 2 = 0 THEN Len(d) ELSE Max2(2, Len(d) \div 2)
    IN Packet(i, StampNo(i), 32, SubSeq(d, 1, k))
       \o IF k = Len(d) THEN <<>> ELSE Packet(i + 1, 0, 32, SubSeq(d, k + 1, Len(d)))
MixStream(s) == Flat([i \in DOMAIN s |-> MixItem(s[i], i)])
MixEvents(s) ==
    [i \in DOMAIN s |-> IF s[i] = "1" THEN PlainEvent(1, StampNo(i))
                        ELSE IF s[i] = "2" THEN PlainEvent(2, StampNo(i)) ELSE BadKind(s[i])]
    \o <<Over>>
=============================================================================
