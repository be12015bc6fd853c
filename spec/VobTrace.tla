------------------------------ MODULE VobTrace ------------------------------
(* Checks recorded runs of the real VobSub reader against VobSub.            *)
EXTENDS VobSub, Json, IOUtils, TLC, FiniteSets

Cases == ndJsonDeserialize(IOEnv.TRACE)
TData(r) == Cases[r].bytes
Obs == Cases[run].out
HasAsp(a) == \E i \in DOMAIN Cases[run].asp : Cases[run].asp[i] = a

MissKinds == {"MissStart", "MissArea", "MissPalette", "MissAlpha", "MissOffsets"}
SameItem(x, o) ==
    /\ x.t = o.t
    /\ x.t = "err" /\ HasAsp("errk") =>
          IF x.miss = <<>> THEN o.k \notin MissKinds ELSE \E i \in DOMAIN x.miss : x.miss[i] = o.k
    /\ x.t = "sub" =>
          /\ HasAsp("times") => SameTime(x.exact, x.s, o.s) /\ SameTime(x.exact, x.e, o.e)
          /\ HasAsp("ctl") => x.x = o.x /\ x.y = o.y /\ x.w = o.w /\ x.h = o.h /\ x.pal = o.pal /\ x.al = o.al
          /\ HasAsp("px") => x.w = o.w /\ x.h = o.h /\ x.px = o.px
SameRun == Len(ev) = Len(Obs) /\ \A i \in DOMAIN ev : SameItem(ev[i], Obs[i])

(* Subtitles, errors and then the end; two-bit pixels, one for each point of *)
(* the area, that can be rendered.                                           *)
Sane(s) ==
    /\ s # <<>> /\ s[Len(s)].t = "end"
    /\ \A i \in DOMAIN s :
          /\ s[i].t \in {"sub", "err", "end"}
          /\ s[i].t = "end" => \A j \in i..Len(s) : s[j].t = "end"
          /\ s[i].t = "sub" =>
                /\ s[i].n = s[i].w * s[i].h /\ TotalRuns(s[i].px) = s[i].n
                /\ \A k \in DOMAIN s[i].px : s[i].px[k][1] \in 0..3
                /\ \A k \in 1..4 : s[i].pal[k] \in 0..15 /\ s[i].al[k] \in 0..15
                /\ "ren" \in DOMAIN s[i] =>
                      s[i].ren = <<s[i].w, s[i].h, s[i].w + 10, s[i].h + 10>>
Accepts == Sane(Obs) /\ (HasAsp("same") => SameRun)

(* A case with `puff` = <<at, n, pattern>> holds the pattern twice from `at`   *)
(* on; the run was given n more of it.  Passing over what is no packet, or a   *)
(* packet of another stream, or one without content changes nothing but the    *)
(* position (NoPacket, Foreign, Continue), so that n + 2 give what 2 give if    *)
(* both of the two are passed over like that, and alike: no more events, no    *)
(* pack other than the foreign ones accepted, none cut.                        *)
Puffed == "puff" \in DOMAIN Cases[run]
AsInOne ==
    LET from == Cases[run].puff[1] + 1
        k == Len(Cases[run].puff[3])
        first == {i - from : i \in {j \in packs : from <= j /\ j < from + k}}
        second == {i - from - k : i \in {j \in packs : from + k <= j /\ j < from + 2 * k}}
        packet(i) == PackOk(i) /\ PesTag(PesAt(i)) /\ ~PesCut(PesAt(i)) /\ PesOk(PesAt(i))
        kind(i) == IF packet(i) THEN <<PesId(PesAt(i)), PesData(PesAt(i)) = <<>>, PesEnd(PesAt(i)) - i>> ELSE <<>>
        cut(i) == PackOk(i) /\ PesTag(PesAt(i)) /\ PesCut(PesAt(i))
    IN /\ first = second
       /\ \A o \in first :
             /\ kind(from + o) = kind(from + k + o)
             /\ ~cut(from + o) /\ ~cut(from + k + o)
             /\ kind(from + o) # <<>> => /\ kind(from + o)[1] # 32 \/ kind(from + o)[2]
                                        /\ o + kind(from + o)[3] < k
       /\ \A i \in packs : i < from /\ packet(i) => PesEnd(PesAt(i)) < from

(* A case with `rep` was run on its bytes repeated, and `out` is the period  *)
(* of what was returned (see PgsTrace): every packet holds a whole subtitle.  *)
Repeated == "rep" \in DOMAIN Cases[run]
AsItWas == Len(ev) = Cardinality(packs) + 1 /\ \A i \in DOMAIN ev : i < Len(ev) => ev[i].t = "sub"

Verdict ==
    /\ phase = "done"
    /\ Assert(Repeated => AsItWas, "the bytes of a repeated case end within a subtitle")
    /\ Assert(Puffed => AsInOne, "the pattern of a puffed case does not stand alone")
    /\ phase' = "judged"
    /\ PrintT("@@" \o ToJson([run |-> run, ok |-> Accepts, ev |-> IF Accepts THEN <<>> ELSE ev]))
    /\ UNCHANGED <<run, packs, pos, coll, raw, at, cmd, reg, bmp, ev>>

TInit == \E r \in DOMAIN Cases : VobInit(r)
TNext == VobNext \/ Verdict
TSpec == TInit /\ [][TNext]_vobVars
=============================================================================
