------------------------------- MODULE MCPgs -------------------------------
(* All scripts of a bounded family, read by Pgs.                             *)
EXTENDS Pgs, PgsFormat, TLC, Json, SequencesExt

CONSTANTS Alphabet,     \* the segments of the scripts
          MaxItems,     \* how many of them
          Family,       \* "free": any sequence; "middle": one caption among two good ones
          Modes,
          Emit          \* print every behaviour, to be replayed in the real code

BothModes == {"image", "time"}
TimeMode == {"time"}
ImageMode == {"image"}
Seqs(k) == UNION {[1..n -> Alphabet] : n \in 0..k}
Before == <<"P", "A", "1", "E", "P", "E">>
After == <<"P", "B", "W", "2", "E", "W", "E">>
Scripts ==
    CASE Family = "free" -> Seqs(MaxItems)
      [] Family = "middle" ->
            UNION {{Before \o p[1] \o <<"E">> \o p[2] \o <<"E">> \o After :
                       p \in Seqs(MaxItems - m) \X [1..m -> Alphabet]} : m \in 0..Min2(2, MaxItems)}
      [] Family = "goodmiddle" ->      \* a good caption, then anything, then the clearing end
            {Before \o a \o <<"E", "P", "E">> \o After : a \in Seqs(MaxItems)}
RunOf(s, m) == [script |-> s, mode |-> m, bytes |-> ScriptBytes(s), exp |-> Expected(s, m)]
MStream(r) == r.bytes
MMode(r, n) == r.mode
MFault(r) == -1

Report ==
    /\ phase = "done"
    /\ phase' = "reported"
    /\ Emit => PrintT("@@" \o ToJson([bytes |-> run.bytes, dec |-> run.mode, exp |-> run.exp]))
    /\ UNCHANGED <<run, pos, start, pal, img, part, bad, ev>>

\* The run is worked out in the first step, by all workers.
MInit == \E s \in Scripts, m \in Modes : PgsInitAt([script |-> s, mode |-> m], "load")
Load ==
    /\ phase = "load" /\ phase' = "read"
    /\ run' = RunOf(run.script, run.mode)
    /\ UNCHANGED <<pos, start, pal, img, part, bad, ev>>
MNext == Load \/ PgsNext \/ Report
MSpec == MInit /\ [][MNext]_pgsVars /\ WF_pgsVars(MNext)

(* Every event so far is the right one ... *)
ReturnsExpected == phase # "load" => IsPrefix(ev, run.exp)
(* ... and when the end is reported, none is missing. *)
NothingMissing == phase = "done" => ev = run.exp
(* The end is reached. *)
Terminates == <>(phase = "reported")
(* Nothing is read twice or left out: the position only grows, and every    *)
(* request consumes something or returns what is wrong with the last caption. *)
Progress == [][pos' > pos \/ phase' # phase \/ bad' # bad]_pgsVars
(* The number of captions is the number of pairs of end markers.            *)
OnePerPair ==
    phase = "done" =>
        Len(SelectSeq(ev, LAMBDA e : e.t # "end"))
            \in {NumPairs(run.script), NumPairs(run.script) + 1}
=============================================================================
