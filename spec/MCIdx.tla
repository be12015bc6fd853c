-------------------------------- MODULE MCIdx --------------------------------
(* All files of a bounded number of lines of the kinds below, all line endings, *)
(* failing sources, and pieces of any of the sizes Pieces.                      *)
EXTENDS Idx, TLC, Json, FiniteSets

CONSTANTS Alphabet, Size, Pieces, Faults, Emit

Hex == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
HexOf(b) == <<Hex[b \div 16 + 1], Hex[b - (b \div 16) * 16 + 1]>>
Big(s) == [i \in DOMAIN s |-> IF s[i] >= 97 THEN s[i] - 32 ELSE s[i]]
RECURSIVE Joined(_, _)
Joined(p, sep) ==
    LET c == HexOf(p[1][1]) \o HexOf(p[1][2]) \o HexOf(p[1][3])
    IN IF Len(p) = 1 THEN c ELSE c \o sep \o Joined(Tail(p), sep)
PalA(z) == [k \in 1..16 |-> <<k, 16 * k - 1, 255 - k>>]
PalB(z) == [k \in 1..16 |-> <<255 - 3 * k, k, 10 * k>>]
PalTxt(p) == PaletteKey \o ColonBlank \o Joined(p, <<44, 32>>)
IdTxt(l) == IdKey \o ColonBlank \o l \o IndexMark \o <<48>>
En == <<101, 110>>
De == <<100, 101>>

LineOf(c) ==
    CASE c = "A" -> PalTxt(PalA(0))
      [] c = "B" -> PaletteKey \o ColonBlank \o Big(Joined(PalB(0), <<44, 32>>))
      [] c = "t" -> PalTxt(PalB(0)) \o <<32, 9, 194, 160>>                        \* trailing blanks
      [] c = "x" -> PalTxt(SubSeq(PalA(0), 1, 15))
      [] c = "y" -> PalTxt(PalA(0) \o <<<<1, 2, 3>>>>)
      [] c = "z" -> [PalTxt(PalA(0)) EXCEPT ![14] = 103]                             \* 'g'
      [] c = "w" -> PaletteKey \o ColonBlank \o Joined(PalA(0), <<44>>)             \* no blank
      [] c = "v" -> PaletteKey \o ColonBlank \o Joined(PalA(0), <<44, 32>>) \o <<44>>
      [] c = "i" -> IdTxt(En)
      [] c = "j" -> IdTxt(De)
      [] c = "k" -> IdTxt(<<45, 45>>)                                               \* --
      [] c = "l" -> IdKey \o ColonBlank \o En                                       \* no index
      [] c = "c" -> <<35, 32>> \o PalTxt(PalA(0))                                   \* comment
      [] c = "d" -> <<32>> \o PalTxt(PalA(0))                                       \* another key
      [] c = "f" -> <<80>> \o Tail(PalTxt(PalA(0)))                                 \* Palette
      [] c = "u" -> <<115, 105, 122, 101, 58, 32, 55, 50>>                          \* size: 72
      [] c = "e" -> <<>>
      [] c = "n" -> <<35, 255>>                                                     \* not UTF-8
      [] c = "q" -> <<35, 195, 169, 226, 130, 172, 240, 159, 146, 169>>             \* UTF-8
BadPal == {"x", "y", "z", "w", "v"}
Meaning(w, faulty) ==
    LET bad == {i \in DOMAIN w : w[i] \in BadPal \cup {"n"}}
        lastOf(S) == LET is == {i \in DOMAIN w : w[i] \in S} IN IF is = {} THEN "" ELSE w[CHOOSE i \in is : \A j \in is : j <= i]
        p == lastOf({"A", "B", "t"})
        l == lastOf({"i", "j", "k", "l"})
        code == IF l = "i" THEN En ELSE IF l = "j" THEN De ELSE <<>>
    IN IF bad # {} THEN [t |-> "err", k |-> IF w[CHOOSE i \in bad : \A j \in bad : i <= j] = "n" THEN "Io" ELSE "Other"]
       ELSE IF faulty THEN [t |-> "err", k |-> "Io"]
       ELSE [t |-> "ok", pal |-> IF p = "" THEN DefaultPalette ELSE IF p = "A" THEN PalA(0) ELSE PalB(0),
             lang |-> code, haslang |-> code # <<>>]

Ends == {<<10>>, <<13, 10>>}
RECURSIVE Text(_, _)
Text(w, e) == IF w = <<>> THEN <<>> ELSE LineOf(w[1]) \o e \o Text(Tail(w), e)
Words == UNION {[1..n -> Alphabet] : n \in 0..Size}
\* last line without an end (an empty one is none); fault after m lines and d bytes
Scripts ==
    {[w |-> w, e |-> e, open |-> o, fault |-> <<>>] : w \in Words, e \in Ends, o \in {FALSE, TRUE}}
    \cup (IF Faults THEN {[w |-> w, e |-> <<10>>, open |-> FALSE, fault |-> <<m, d>>] : w \in Words, m \in 0..Size, d \in {0, 1}}
          ELSE {})
Legal(s) ==
    /\ s.open => s.w # <<>> /\ s.w[Len(s.w)] # "e"
    /\ s.fault # <<>> => s.fault[1] <= Len(s.w)
    /\ s.fault # <<>> /\ s.fault[2] = 1 => s.fault[1] < Len(s.w) /\ s.w[s.fault[1] + 1] # "e"

MData(r) == r
MGives(n) == {k \in Pieces : k <= n} \cup {n}
MInit == \E s \in {z \in Scripts : Legal(z)} : IdxInitAt([script |-> s], "load")
Load ==
    /\ phase = "load" /\ phase' = "line"
    /\ LET s == run.script
           t == Text(s.w, s.e)
           before == IF s.fault = <<>> THEN s.w ELSE SubSeq(s.w, 1, s.fault[1])
       IN run' = [bytes |-> IF s.open THEN SubSeq(t, 1, Len(t) - Len(s.e)) ELSE t,
                  fault |-> IF s.fault = <<>> THEN -1 ELSE Len(Text(before, s.e)) + s.fault[2],
                  exp |-> Meaning(before, s.fault # <<>>)]
    /\ UNCHANGED <<pos, line, pal, lang, res>>
Report ==
    /\ phase = "done" /\ phase' = "reported"
    /\ Emit => PrintT("@@" \o ToJson([bytes |-> run.bytes, fault |-> run.fault, exp |-> run.exp]))
    /\ UNCHANGED <<run, pos, line, pal, lang, res>>
MNext == Load \/ IdxNext \/ Report
MSpec == MInit /\ [][MNext]_idxVars /\ WF_idxVars(MNext)

RightResult == phase = "done" => Result = run.exp
Terminates == <>(phase = "reported")
Forward == [][pos' >= pos]_idxVars
(* The line holds the bytes before the position. *)
LineIsData ==
    phase = "line" => line = SubSeq(run.bytes, pos - Len(line) + 1, pos)
=============================================================================
