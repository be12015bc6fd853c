------------------------------ MODULE MCWriter ------------------------------
(* All splits of the writes, all places of interruptions, all failing offsets, *)
(* for lists of subtitles of a bounded family.                                 *)
EXTENDS Writer, TLC, Json
CONSTANTS Texts, Takes, Intr, Emit
TextOf(c) == CASE c \in {"e", "z"} -> <<>> [] c = "a" -> <<97>> [] c = "l" -> <<97, 10, 98>> [] c = "b" -> <<10, 10>>
               [] c = "u" -> <<195, 169>> [] c = "n" -> <<50, 10, 48, 58>> [] c = "p" -> <<37, 123, 125, 92>>
T0 == [neg |-> FALSE, d |-> <<0>>]
T1 == [neg |-> TRUE, d |-> <<1>>]
T2 == [neg |-> FALSE, d |-> <<3, 6, 0, 0, 0, 0, 0, 0, 0>>]
(* With "z" the times are the same. *)
Entry(w, i) == [s |-> IF i % 2 = 1 THEN T0 ELSE T1,
                e |-> IF w[i] = "z" THEN (IF i % 2 = 1 THEN T0 ELSE T1) ELSE IF i % 2 = 1 THEN T2 ELSE T0, text |-> TextOf(w[i])]
Words(k) == UNION {[1..n -> Texts] : n \in 0..k}
Lists == {[mode |-> "srt", num |-> 1, w |-> w] : w \in Words(2)}
         \cup {[mode |-> m, num |-> n, w |-> w] : m \in {"srtline", "vtt"}, n \in {0, 10, 123456789}, w \in {z \in Words(1) : Len(z) = 1}}
MJobs(r) == r
MInit ==
    \E l \in Lists :
        LET j == [mode |-> l.mode, num |-> l.num, subs |-> [i \in DOMAIN l.w |-> Entry(l.w, i)], fail |-> -1]
            n == Len(AllText(j))
        IN \E f \in -1..(n + 1) : WInitAt([j EXCEPT !.fail = f], "open")
Report ==
    /\ phase \in {"ok", "failed"}
    /\ phase' = "reported" /\ UNCHANGED <<run, text, out, intr>>
    /\ Emit => PrintT("@@" \o ToJson([mode |-> J.mode, num |-> J.num, subs |-> J.subs, fail |-> J.fail, res |-> phase, bytes |-> out]))
MNext ==
    Compose \/ Fail \/ Finish \/ Report \/ Interrupted(Intr)
    \/ \E k \in Takes : Take(k)
MSpec == MInit /\ [][MNext]_wVars /\ WF_wVars(Compose \/ Fail \/ Finish \/ Report \/ Take(1))

Prefix == phase # "open" => Len(out) <= Len(text) /\ \A i \in DOMAIN out : out[i] = text[i]
Honest == /\ phase = "ok" => out = text
          /\ phase = "failed" => J.fail = Len(out) /\ Len(out) < Len(text)
          /\ phase = "ok" /\ J.fail >= 0 => Len(text) <= J.fail
Terminates == <>(phase = "reported")
InOrder == [][Len(out') >= Len(out)]_wVars
=============================================================================
