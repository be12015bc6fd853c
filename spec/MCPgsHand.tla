------------------------------ MODULE MCPgsHand ------------------------------
(* All scripts of a bounded family, each caption read by the decoder that is     *)
(* chosen when the one before has been returned - in every way of choosing.      *)
EXTENDS Pgs, PgsFormat, TLC, Json, SequencesExt

CONSTANTS Units,        \* pieces of scripts
          MaxItems, Emit
VARIABLES decs,     \* the decoders chosen so far
          ends      \* where each request stopped
hvars == <<pgsVars, decs, ends>>

Modes == {"image", "time"}
Flat(u) == FoldLeft(LAMBDA a, x : a \o x, <<>>, u)
Scripts == {Flat(u) : u \in UNION {[1..n -> Units] : n \in 0..MaxItems}}
FewUnits == {<<"A", "1", "E">>, <<"P", "E">>, <<"B", "f", "l", "E">>, <<"x", "E">>, <<"A", "f">>}
ManyUnits == FewUnits \cup {<<"E">>, <<"W", "Q">>, <<"1", "E">>}
MStream(r) == r.bytes
MMode(r, n) == decs[n]
MFault(r) == -1
RunOf(s) == [script |-> s, bytes |-> ScriptBytes(s)]

Pairs == NumPairs(run.script)
MInit == /\ \E s \in Scripts : PgsInit(RunOf(s))
         /\ decs = <<>> /\ ends = <<>>
Choose ==
    /\ phase = "read" /\ Len(decs) = Len(ev)
    /\ \E m \in Modes : decs' = Append(decs, m)
    /\ UNCHANGED <<pgsVars, ends>>
Step ==
    /\ Len(decs) > Len(ev) /\ PgsNext
    /\ ends' = IF ev' # ev THEN Append(ends, pos') ELSE ends
    /\ UNCHANGED decs
Report ==
    /\ phase = "done" /\ phase' = "reported"
    /\ Emit => PrintT("@@" \o ToJson([bytes |-> run.bytes, decs |-> decs, exp |-> ev, ends |-> ends, pairs |-> Pairs]))
    /\ UNCHANGED <<run, pos, start, pal, img, part, bad, ev, decs, ends>>
MSpec == MInit /\ [][Choose \/ Step \/ Report]_hvars /\ WF_hvars(Choose) /\ WF_hvars(Step) /\ WF_hvars(Report)

(* Whoever reads caption n gives what it would give had it read all of them ... *)
EachAsAlone ==
    \A n \in DOMAIN ev :
        IF n <= Pairs THEN ev[n] = Expected(run.script, decs[n])[n]
        ELSE ev[n] = [t |-> "end"] \/ ev[n] = Expected(run.script, "image")[n]
(* ... and leaves the reader right behind its end marker.                        *)
Offset(k) == Len(ScriptBytes(SubSeq(run.script, 1, k)))
BehindTheEnd == \A n \in DOMAIN ends : n <= Pairs => ends[n] = Offset(EndNo(run.script, 2 * n))
NothingMissing == phase = "done" => Len(ev) \in {Pairs + 1, Pairs + 2}
Terminates == <>(phase = "reported")
=============================================================================
