--------------------------------- MODULE Idx ---------------------------------
(* Reading an idx file: a source gives the bytes in pieces of any size, the    *)
(* reader puts lines together and takes the palette and the language from      *)
(* them.  Texts are sequences of bytes.                                        *)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS Data(_),      \* [bytes, fault] of a run; fault: offset from which the source fails, or -1
          Gives(_)      \* how many of the n bytes left in the line the source may give at once

VARIABLES run, phase, pos, line, pal, lang, res
idxVars == <<run, phase, pos, line, pal, lang, res>>

LF == 10
Bytes == Data(run).bytes
Fault == Data(run).fault
Reach == IF Fault < 0 \/ Fault > Len(Bytes) THEN Len(Bytes) ELSE Fault

(* --- characters *)
IsLower(c) == c \in 97..122
IsUpper(c) == c \in 65..90
IsDigit(c) == c \in 48..57
IsHex(c) == IsDigit(c) \/ c \in 97..102 \/ c \in 65..70
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
IsKeyChar(c) == IsLower(c) \/ IsUpper(c) \/ c = 47 \/ c = 32

(* Does a blank character (Unicode White_Space) end at s[n]?  Its size in      *)
(* bytes, or 0.                                                                *)
BlankAt(s, n) ==
    IF n = 0 THEN 0
    ELSE IF s[n] \in 9..13 \/ s[n] = 32 THEN 1
    ELSE IF n >= 2 /\ s[n - 1] = 194 /\ s[n] \in {133, 160} THEN 2
    ELSE IF n >= 3 /\ \/ s[n - 2] = 226 /\ s[n - 1] = 128 /\ (s[n] \in 128..138 \/ s[n] \in {168, 169, 175})
                      \/ <<s[n - 2], s[n - 1], s[n]>> \in {<<225, 154, 128>>, <<226, 129, 159>>, <<227, 128, 128>>}
         THEN 3
    ELSE 0
(* Without the blank characters at its end: how much is left of each of the    *)
(* last prefixes (of n - 3, n - 2, n - 1 characters) gives how much of the     *)
(* next one.                                                                   *)
TrimEnd(s) ==
    LET next(keep, n) ==
            LET k == BlankAt(s, n) IN <<keep[2], keep[3], IF k = 0 THEN n ELSE keep[4 - k]>>
    IN SubSeq(s, 1, FoldLeft(next, <<0, 0, 0>>, [n \in 1..Len(s) |-> n])[3])

(* --- valid UTF-8: `need` bytes of a character are still missing, the next of *)
(* them lies in lo..hi.                                                        *)
Utf8Step(a, c) ==
    IF ~a.ok THEN a
    ELSE IF a.need > 0
         THEN IF c \in a.lo..a.hi THEN [ok |-> TRUE, need |-> a.need - 1, lo |-> 128, hi |-> 191]
              ELSE [a EXCEPT !.ok = FALSE]
    ELSE IF c < 128 THEN a
    ELSE IF c \in 194..223 THEN [ok |-> TRUE, need |-> 1, lo |-> 128, hi |-> 191]
    ELSE IF c \in 224..239
         THEN [ok |-> TRUE, need |-> 2, lo |-> IF c = 224 THEN 160 ELSE 128, hi |-> IF c = 237 THEN 159 ELSE 191]
    ELSE IF c \in 240..244
         THEN [ok |-> TRUE, need |-> 3, lo |-> IF c = 240 THEN 144 ELSE 128, hi |-> IF c = 244 THEN 143 ELSE 191]
    ELSE [a EXCEPT !.ok = FALSE]
IsUtf8(s) == LET a == FoldLeft(Utf8Step, [ok |-> TRUE, need |-> 0, lo |-> 128, hi |-> 191], s) IN a.ok /\ a.need = 0

(* --- lines *)
RunOf(P(_), s, i) ==         \* where the characters from i that satisfy P end
    LET n == SelectInSeq(SubSeq(s, i, Len(s)), LAMBDA c : ~P(c))
    IN IF n = 0 THEN Len(s) ELSE i + n - 2
From(s, i) == SubSeq(s, i, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

PaletteKey == <<112, 97, 108, 101, 116, 116, 101>>           \* palette
IdKey == <<105, 100>>                                        \* id
IndexMark == <<44, 32, 105, 110, 100, 101, 120, 58, 32>>     \* ", index: "
ColonBlank == <<58, 32>>

(* [key, val], or <<>> for a line that has no key. *)
KeyVal(s) ==
    LET k == RunOf(IsKeyChar, s, 1)
    IN IF k >= 1 /\ StartsWith(From(s, k + 1), ColonBlank)
       THEN <<[key |-> SubSeq(s, 1, k), val |-> From(s, k + 3)]>> ELSE <<>>

(* Sixteen colours RRGGBB separated by comma and blank. *)
PaletteLen == 16 * 6 + 15 * 2
ColourAt(k) == 8 * (k - 1) + 1
PaletteOk(v) ==
    /\ Len(v) = PaletteLen
    /\ \A k \in 1..16 : \A i \in 0..5 : IsHex(v[ColourAt(k) + i])
    /\ \A k \in 1..15 : v[ColourAt(k) + 6] = 44 /\ v[ColourAt(k) + 7] = 32
Component(v, i) == HexVal(v[i]) * 16 + HexVal(v[i + 1])
PaletteOf(v) == [k \in 1..16 |-> [c \in 1..3 |-> Component(v, ColourAt(k) + 2 * (c - 1))]]
(* The language code, or <<>>. *)
LangOf(v) ==
    LET k == RunOf(IsLower, v, 1)
    IN IF k >= 1 /\ StartsWith(From(v, k + 1), IndexMark) THEN SubSeq(v, 1, k) ELSE <<>>

DefaultPalette ==
    << <<0, 0, 0>>, <<240, 240, 240>>, <<204, 204, 204>>, <<153, 153, 153>>,
       <<51, 51, 250>>, <<17, 17, 187>>, <<250, 51, 51>>, <<187, 17, 17>>,
       <<51, 250, 51>>, <<17, 187, 17>>, <<250, 250, 51>>, <<187, 187, 17>>,
       <<250, 51, 250>>, <<187, 17, 187>>, <<51, 250, 250>>, <<17, 187, 187>> >>

(* --- the machine *)
Ended == line # <<>> /\ line[Len(line)] = LF
LineEnd(i) ==                \* offset after the line that contains offset i
    LET r == Reach
        n == SelectInSeq(SubSeq(Bytes, i + 1, r), LAMBDA c : c = LF)
    IN IF n = 0 THEN r ELSE i + n

IdxInitAt(r, p) ==
    run = r /\ phase = p /\ pos = 0 /\ line = <<>> /\ pal = <<>> /\ lang = <<>> /\ res = "none"
Give ==
    /\ phase = "line" /\ ~Ended /\ pos < Reach
    /\ \E k \in Gives(LineEnd(pos) - pos) :
          line' = line \o SubSeq(Bytes, pos + 1, pos + k) /\ pos' = pos + k
    /\ UNCHANGED <<run, phase, pal, lang, res>>
SourceFails ==
    /\ phase = "line" /\ ~Ended /\ Fault >= 0 /\ pos = Fault
    /\ phase' = "done" /\ res' = "Io"
    /\ UNCHANGED <<run, pos, line, pal, lang>>
AtEnd == Fault < 0 \/ Fault > Len(Bytes)
LineDone ==
    /\ phase = "line" /\ (Ended \/ (line # <<>> /\ pos = Reach /\ AtEnd))
    /\ IF IsUtf8(line) THEN phase' = "parse" /\ UNCHANGED res ELSE phase' = "done" /\ res' = "Io"
    /\ UNCHANGED <<run, pos, line, pal, lang>>
Parse ==
    /\ phase = "parse"
    /\ LET kv == KeyVal(TrimEnd(line)) IN
       IF kv # <<>> /\ kv[1].key = PaletteKey
       THEN IF PaletteOk(kv[1].val)
            THEN pal' = <<PaletteOf(kv[1].val)>> /\ phase' = "line" /\ UNCHANGED <<lang, res>>
            ELSE phase' = "done" /\ res' = "Other" /\ UNCHANGED <<pal, lang>>
       ELSE /\ phase' = "line"
            /\ lang' = IF kv # <<>> /\ kv[1].key = IdKey THEN LangOf(kv[1].val) ELSE lang
            /\ UNCHANGED <<pal, res>>
    /\ line' = <<>>
    /\ UNCHANGED <<run, pos>>
Finish ==
    /\ phase = "line" /\ line = <<>> /\ pos = Reach /\ AtEnd
    /\ phase' = "done" /\ res' = "ok"
    /\ UNCHANGED <<run, pos, line, pal, lang>>
IdxNext == Give \/ SourceFails \/ LineDone \/ Parse \/ Finish

Result ==
    IF res = "ok"
    THEN [t |-> "ok", pal |-> IF pal = <<>> THEN DefaultPalette ELSE pal[1], lang |-> lang, haslang |-> lang # <<>>]
    ELSE [t |-> "err", k |-> res]
=============================================================================
