------------------------------- MODULE Writer -------------------------------
(* Writing subtitles as text to a sink that takes as many bytes as it likes,   *)
(* may be interrupted, and may fail - or refuse to take anything - from some    *)
(* offset on.                                                                  *)
EXTENDS TimeText

CONSTANTS Jobs(_)       \* [mode, num, subs, fail] of a run; subs: sequence of [s, e, text]
VARIABLES run,
          text,         \* what has to be written
          out,          \* what the sink has taken
          intr,         \* interruptions so far
          phase
wVars == <<run, text, out, intr, phase>>
J == Jobs(run)

NL == <<10>>
Arrow == <<32, 45, 45, 62, 32>>
Times(e, sep) == Text(e.s, sep) \o Arrow \o Text(e.e, sep) \o NL
SrtEntry(n, e) == Ascii(Num(n)) \o NL \o Times(e, 44) \o e.text \o NL \o NL
VttEntry(e) == Times(e, 46) \o e.text \o NL \o NL
(* The entries a .. b, one after the other. *)
RECURSIVE Entries(_, _, _)
Entries(j, a, b) ==
    IF a > b THEN <<>> ELSE IF a = b THEN SrtEntry(a, j.subs[a])
    ELSE LET m == (a + b) \div 2 IN Entries(j, a, m) \o Entries(j, m + 1, b)
AllText(j) ==
    CASE j.mode = "srt" -> Entries(j, 1, Len(j.subs))
      [] j.mode = "srtline" -> SrtEntry(j.num, j.subs[1])
      [] j.mode = "vtt" -> VttEntry(j.subs[1])

Room == IF J.fail < 0 THEN Len(text) - Len(out) ELSE J.fail - Len(out)
WInitAt(r, p) == run = r /\ text = <<>> /\ out = <<>> /\ intr = 0 /\ phase = p
Compose == phase = "open" /\ text' = AllText(J) /\ phase' = "writing" /\ UNCHANGED <<run, out, intr>>
Take(k) ==
    /\ phase = "writing" /\ Len(out) + k <= Len(text) /\ k <= Room
    /\ out' = out \o SubSeq(text, Len(out) + 1, Len(out) + k)
    /\ UNCHANGED <<run, text, intr, phase>>
Interrupted(n) == phase = "writing" /\ intr < n /\ intr' = intr + 1 /\ UNCHANGED <<run, text, out, phase>>
Fail == phase = "writing" /\ Len(out) < Len(text) /\ Room = 0 /\ phase' = "failed" /\ UNCHANGED <<run, text, out, intr>>
Finish == phase = "writing" /\ out = text /\ phase' = "ok" /\ UNCHANGED <<run, text, out, intr>>
=============================================================================
