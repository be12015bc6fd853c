------------------------------ MODULE PgsTrace ------------------------------
(* Checks recorded runs of the real reader against Pgs: every case of the   *)
(* trace file holds the bytes of a stream and what the real reader returned  *)
(* for it (`out`); the case is accepted if the behaviour of Pgs on these     *)
(* bytes returns the same, as far as `asp` says.                             *)
EXTENDS Pgs, Json, IOUtils, TLC, FiniteSets

Cases == ndJsonDeserialize(IOEnv.TRACE)
TStream(r) == Cases[r].bytes
TMode(r, n) == Cases[r].dec
TFault(r) == Cases[r].fault

Obs == Cases[run].out
Has(a) == \E i \in DOMAIN Cases[run].asp : Cases[run].asp[i] = a

SameItem(x, o) ==
    /\ x.t = o.t
    /\ x.t = "err" /\ Has("errk") /\ x.k \in {"MissingImage", "MissingPalette"} => o.k = x.k
    /\ x.t = "cap" =>
          /\ Has("times") => x.s = o.s /\ x.e = o.e
          /\ Has("size") /\ Cases[run].dec = "image" => x.w = o.w /\ x.h = o.h
          /\ Has("px") /\ Cases[run].dec = "image" => x.big = o.big /\ x.px = o.px
SameRun == Len(ev) = Len(Obs) /\ \A i \in DOMAIN ev : SameItem(ev[i], Obs[i])

(* Nothing but captions, errors and the end; whole pictures; in finite time. *)
Sane(s) ==
    /\ s # <<>>
    /\ \A i \in DOMAIN s :
          /\ s[i].t \in {"cap", "err", "end"}
          /\ s[i].t = "end" => \A j \in i..Len(s) : s[j].t = "end"
          /\ s[i].t = "cap" /\ Cases[run].dec = "image" /\ ~s[i].big => TotalRuns(s[i].px) = s[i].w * s[i].h
    /\ s[Len(s)].t = "end" \/ (Faulty /\ s[Len(s)].t = "err")

Accepts == Sane(Obs) /\ (Has("same") => SameRun)

(* A case with `rep` was run on its bytes repeated, and `out` is the period  *)
(* of what was returned.  That is what Pgs returns for the bytes alone,      *)
(* since they leave it as it was: nothing is in progress at their end.       *)
Repeated == "rep" \in DOMAIN Cases[run]
AsItWas == start = None /\ pal = None /\ img = None /\ part = None /\ bad = None /\ ~Faulty

Verdict ==
    /\ phase \in {"done", "stopped"}
    /\ Assert(Repeated => AsItWas, "the bytes of a repeated case end within a caption")
    /\ phase' = "judged"
    /\ PrintT("@@" \o ToJson([run |-> run, ok |-> Accepts, ev |-> IF Accepts THEN <<>> ELSE ev]))
    /\ UNCHANGED <<run, pos, start, pal, img, part, bad, ev>>

TInit == \E r \in DOMAIN Cases : PgsInit(r)
TNext == PgsNext \/ Verdict
TSpec == TInit /\ [][TNext]_pgsVars
=============================================================================
