---------------------------- MODULE PgsHandTrace ----------------------------
(* Recorded runs in which the reader of a stream is handed from decoder to     *)
(* decoder: `decs` says which one reads next, `start` where the reader stood at  *)
(* first.  `out` holds what each of them returned and where (`p`) the reader    *)
(* stood afterwards.  Requests may stop before the data do (`max` > 0): what      *)
(* follows then belongs to someone else and must not matter.                     *)
EXTENDS Pgs, Json, IOUtils, TLC

VARIABLE ends       \* where each request stopped
handVars == <<pgsVars, ends>>

Cases == ndJsonDeserialize(IOEnv.TRACE)
HStream(r) == SubSeq(Cases[r].bytes, Cases[r].start + 1, Len(Cases[r].bytes))
HMode(r, n) == LET d == Cases[r].decs IN d[((n - 1) % Len(d)) + 1]
HFault(r) == -1

Obs == Cases[run].out
SameItem(x, o, p) ==
    /\ x.t = o.t
    /\ x.t = "err" /\ x.k \in {"MissingImage", "MissingPalette"} => o.k = x.k
    /\ x.t = "cap" => x.s = o.s /\ x.e = o.e /\ x.w = o.w /\ x.h = o.h /\ x.big = o.big /\ x.px = o.px
    /\ p >= 0 => o.p = Cases[run].start + p
Accepts == Len(ev) = Len(Obs) /\ \A i \in DOMAIN ev : SameItem(ev[i], Obs[i], ends[i])

\* A caption, decodable or not, ends right behind the end marker that clears it;
\* where a request leaves the reader that found no such marker is not said (-1).
Note == ends' = IF ev' # ev THEN Append(ends, IF AtSegment(EndSeg) THEN pos' ELSE -1) ELSE ends
Stopped == Cases[run].max > 0 /\ Len(ev) = Cases[run].max
Verdict ==
    /\ Finished \/ Stopped
    /\ phase # "judged" /\ phase' = "judged"
    /\ PrintT("@@" \o ToJson([run |-> run, ok |-> Accepts, ev |-> IF Accepts THEN <<>> ELSE <<ev, ends>>]))
    /\ UNCHANGED <<run, pos, start, pal, img, part, bad, ev, ends>>
TInit == ends = <<>> /\ \E r \in DOMAIN Cases : PgsInit(r)
TNext == (~Stopped /\ PgsNext /\ Note) \/ Verdict
TSpec == TInit /\ [][TNext]_handVars
=============================================================================
