----------------------------- MODULE MCPgsIter -----------------------------
(* All pictures made of a bounded number of run codes, possibly cut, with a  *)
(* size that fits the data, is smaller or larger.                            *)
EXTENDS PgsIter, PgsFormat, TLC, Json

CONSTANTS MaxForms,     \* codes per picture
          Few,          \* longer sequences of fewer codes
          Rich,         \* also cut data and sizes that do not fit
          Emit

Pal == <<[id |-> 7, l |-> 9, a |-> 8], [id |-> 0, l |-> 1, a |-> 2], [id |-> 255, l |-> 255, a |-> 255],
         [id |-> 1, l |-> 3, a |-> 4]>>

(* A code: [c]olour, [n]umber of pixels, its bytes. *)
F(c, n, b) == [c |-> c, n |-> n, b |-> b]
Forms == { F(1, 1, <<1>>), F(255, 1, <<255>>), F(2, 1, <<2>>),
           F(0, 1, <<0, 1>>), F(0, 63, <<0, 63>>),
           F(0, 64, <<0, 64, 64>>), F(0, 300, <<0, 65, 44>>), F(0, 5, <<0, 64, 5>>),
           F(7, 3, <<0, 131, 7>>), F(0, 2, <<0, 130, 0>>), F(1, 63, <<0, 191, 1>>),
           F(7, 258, <<0, 193, 2, 7>>), F(3, 1, <<0, 192, 1, 3>>),
           F(0, 0, <<0, 0>>) }
Empty == { F(5, 0, <<0, 128, 5>>), F(0, 0, <<0, 64, 0>>), F(1, 0, <<0, 192, 0, 1>>) }
Chosen == { F(1, 1, <<1>>), F(2, 1, <<2>>), F(0, 1, <<0, 1>>), F(7, 3, <<0, 131, 7>>), F(0, 0, <<0, 0>>), F(5, 0, <<0, 128, 5>>) }
FormSet == IF Few THEN Chosen ELSE Forms \cup Empty

Sum(s) == FoldLeft(LAMBDA acc, f : acc + f.n, 0, s)
DataOf(s) == FoldLeft(LAMBDA acc, f : acc \o f.b, <<>>, s)
(* What the codes stand for, told code by code. *)
Meaning(s) == FoldLeft(LAMBDA acc, f : AddRun(acc, Look(Pal, f.c), f.n), <<>>, s)

Size(w, h) == [w |-> w, h |-> h]
Sizes(s) ==
    LET n == Sum(s)
    IN {Size(n, 1)} \cup (IF n % 2 = 0 THEN {Size(n \div 2, 2)} ELSE {})
       \cup IF Rich THEN {Size(n + 1, 1), Size(n \div 2, 1), Size(n, 0), Size(1, n + 3)} ELSE {}
Cuts(s) == IF Rich THEN 0..Min2(3, Len(DataOf(s))) ELSE {0}

Seqs == UNION {[1..k -> FormSet] : k \in 0..MaxForms}
VARIABLES forms, ph
mcVars == <<iterVars, forms, ph>>

Stream1(p) ==
    Segm(1, 20, FoldLeft(LAMBDA acc, e : acc \o <<e.id, e.l, 1, 2, e.a>>, <<0, 0>>, p.pal))
    \o Segm(2, 21, <<0, 0, 0, 192>> \o LET n == Len(p.data) + 4 IN <<0, n \div 256, n % 256>>
                    \o <<p.w \div 256, p.w % 256, p.h \div 256, p.h % 256>> \o p.data)
    \o Segm(3, 128, <<>>) \o Segm(4, 128, <<>>)

MInit ==
    /\ \E s \in Seqs, cut \in 0..3 :
          /\ cut \in Cuts(s)
          /\ forms = [s |-> s, cut |-> cut]
          /\ \E z \in Sizes(s) :
                IterInit([w |-> z.w, h |-> z.h, data |-> SubSeq(DataOf(s), 1, Len(DataOf(s)) - cut), pal |-> Pal])
    /\ ph = "iter"
MNext ==
    \/ ph = "iter" /\ Request(pic.w * pic.h + 2) /\ UNCHANGED <<forms, ph>>
    \/ /\ ph = "iter" /\ calls = pic.w * pic.h + 2
       /\ ph' = "reported"
       /\ Emit => PrintT("@@" \o ToJson([bytes |-> Stream1(pic), w |-> pic.w, h |-> pic.h, px |-> out]))
       /\ UNCHANGED <<iterVars, forms>>
MSpec == MInit /\ [][MNext]_mcVars /\ WF_mcVars(MNext)

(* Data that is whole and of the right size shows exactly what the codes mean. *)
MeansWhatItSays ==
    left = 0 /\ forms.cut = 0 /\ pic.w * pic.h = Sum(forms.s) => out = Meaning(forms.s)
Terminates == <>(ph = "reported")
=============================================================================
