------------------------------- MODULE MCVob -------------------------------
(* All files of a bounded family, read by VobSub.                             *)
EXTENDS VobSub, VobFormat, TLC, Json

CONSTANTS Family,     \* "packs", "control", "links", "bitmap", "mix"
          Alphabet,   \* letters (packs, control, mix)
          Size,       \* how many letters, or codes per row
          Emit

Words(k) == UNION {[1..n -> Alphabet] : n \in 0..k}

(* Control chains: the five commands that are needed, some left out, others    *)
(* put among them, at most one break between two sequences.                    *)
Needed == <<"s", "p", "l", "a", "o">>
Without(s, drop) == SelectSeq(s, LAMBDA c : c \notin drop)
Insert(s, i, c) == SubSeq(s, 1, i) \o <<c>> \o SubSeq(s, i + 1, Len(s))
RECURSIVE Inserted(_, _)
Inserted(base, k) ==
    IF k = 0 THEN {base}
    ELSE LET less == Inserted(base, k - 1)
         IN less \cup {Insert(q[1], q[2], q[3]) : q \in {z \in less \X (0..(4 + k)) \X Alphabet : z[2] <= Len(z[1])}}
Orders(z) == {s \in [1..5 -> {"s", "p", "l", "a", "o"}] : \A i, j \in 1..5 : i # j => s[i] # s[j]}
Bases(z) == {Without(Needed, d) : d \in SUBSET {"s", "p", "l", "a", "o"}} \cup Orders(0)
Breaks(s) == {<<s>>} \cup {<<SubSeq(s, 1, i), SubSeq(s, i + 1, Len(s))>> : i \in 0..Len(s)}
Three(s) == {<<SubSeq(s, 1, i), SubSeq(s, i + 1, j), SubSeq(s, j + 1, Len(s))>> : i \in 0..1, j \in 2..3}
Links == {"ok", "self", "back", "far"}
Chains(size) ==
    {[seqs |-> q, link |-> "ok"] : q \in UNION {Breaks(s) : s \in Inserted(Needed, size)}}
    \cup {[seqs |-> q, link |-> "ok"] : q \in UNION {Breaks(s) : s \in Bases(0)}}
    \cup {[seqs |-> q, link |-> l] : q \in UNION {Breaks(s) \cup Three(s) : s \in Inserted(Needed, 1)}, l \in Links}

(* Bitmaps: rows of up to Size codes that fill the row or run over its end.    *)
Code(n, v, size) == [n |-> n, v |-> v, size |-> size]
Codes == { Code(0, 2, 4), Code(1, 1, 1), Code(2, 3, 1), Code(3, 0, 1), Code(4, 2, 2), Code(15, 1, 2),
           Code(16, 0, 3), Code(63, 3, 3), Code(64, 1, 4), Code(255, 2, 4), Code(1, 3, 4), Code(4, 0, 4) }
RowSet(w) == {r \in UNION {[1..k -> Codes] : k \in 1..Size} : RowFull(r, w)}
Overs(w) == {r \in UNION {[1..k -> Codes] : k \in 1..Min2(2, Size)} : RowOver(r, w)}
Widths == IF Size > 2 THEN {2, 3, 4, 19, 64, 67, 80, 128, 255, 319} ELSE {2, 4, 16, 17, 19, 64, 67, 128, 256, 319}
\* Every row at every place, beside simple ones.
Bitmaps(z) ==
    UNION {LET all == RowSet(w)
               few == {r \in all : Len(r) = 1} \cup {<<Code(0, 1, 4)>>}
           IN {[w |-> w, rows |-> <<a, b>>] : a \in all, b \in few}
              \cup {[w |-> w, rows |-> <<b, a, c>>] : a \in all, b \in few, c \in few} : w \in Widths}
    \cup UNION {LET a == <<Code(0, 1, 4)>>
                IN UNION {{[w |-> w, rows |-> <<o, a>>], [w |-> w, rows |-> <<a, o>>], [w |-> w, rows |-> <<a, a, o>>]} :
                             o \in Overs(w)} : w \in {2, 4, 17}}

Graphs(n) == {[n |-> n, first |-> f, to |-> t] : f \in 1..(n + 1), t \in [1..n -> 0..(n + 1)]}

Scripts ==
    CASE Family = "packs" -> {s \in Words(Size) : PackMeaning(s, 1, None).legal}
      [] Family = "control" -> Chains(Size)
      [] Family = "links" -> UNION {Graphs(n) : n \in 3..Size}
      [] Family = "bitmap" -> Bitmaps(0)
      [] Family = "mix" -> Words(Size)
BytesOf(s) ==
    CASE Family = "packs" -> PackBytes(s) [] Family = "control" -> CtlStream(s)
      [] Family = "links" -> LinkStream(s)
      [] Family = "bitmap" -> BmpStream(s) [] Family = "mix" -> MixStream(s)
Meaning(s) ==
    CASE Family = "packs" -> PackMeaning(s, 1, None).ev [] Family = "control" -> CtlEvents(s)
      [] Family = "links" -> LinkEvents(s)
      [] Family = "bitmap" -> BmpEvents(s) [] Family = "mix" -> MixEvents(s)

MData(r) == r.bytes
MInit == \E s \in Scripts : VobInitAt([script |-> s], "load")
Load ==
    /\ phase = "load" /\ phase' = "open"
    /\ run' = [script |-> run.script, bytes |-> BytesOf(run.script), exp |-> Meaning(run.script)]
    /\ UNCHANGED <<packs, pos, coll, raw, at, cmd, reg, bmp, ev>>
Report ==
    /\ phase = "done" /\ phase' = "reported"
    /\ Emit => PrintT("@@" \o ToJson([bytes |-> run.bytes, exp |-> run.exp]))
    /\ UNCHANGED <<run, packs, pos, coll, raw, at, cmd, reg, bmp, ev>>
MNext == Load \/ VobNext \/ Report
MSpec == MInit /\ [][MNext]_vobVars /\ WF_vobVars(MNext)

(* Every event so far is the right one, and at the end none is missing. *)
ReturnsExpected == phase # "load" => IsPrefix(ev, run.exp)
NothingMissing == phase = "done" => ev = run.exp
Terminates == <>(phase = "reported")
(* The file is read forward only. *)
Forward == [][pos' >= pos]_vobVars
(* While a bitmap is decoded, whole rows of two-bit pixels are done. *)
WholeRows ==
    phase = "rows" =>
        /\ TotalRuns(bmp.runs) = bmp.y * Width
        /\ \A i \in DOMAIN bmp.runs : bmp.runs[i][1] \in 0..3
        /\ \A par \in {0, 1} : 2 * bmp.off[par + 1] <= Nibs(par)
(* Every chain of sequences is followed forward. *)
ChainForward == [][phase = "control" /\ phase' = "control" => at' >= at]_vobVars
=============================================================================
