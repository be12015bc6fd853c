-------------------------------- MODULE Pgs --------------------------------
(* The reader of SUP streams (src/pgs): one behaviour reads one stream,     *)
(* request by request.  Each action is the handling of one segment (or of   *)
(* the failure to find one); `start`, `pal`, `img`, `part`, `bad` are the    *)
(* registers of the request in progress, and what a request returns is      *)
(* appended to `ev`.  The registers live as long as one request.  An invalid *)
(* palette or object does not end the request: it is kept in `bad` and       *)
(* returned in the place of the caption.                                     *)
EXTENDS PgsRle

CONSTANTS Stream(_),   \* the bytes of run r
          Mode(_, _),  \* "image" or "time": what run r decodes with its n-th request
          Fault(_)     \* offset at which the reader of run r fails, or -1

VARIABLES run, phase, pos, start, pal, img, part, bad, ev

pgsVars == <<run, phase, pos, start, pal, img, part, bad, ev>>

Cap(s, e) == [t |-> "cap", s |-> s, e |-> e, w |-> 0, h |-> 0, big |-> FALSE, px |-> <<>>]
CapImg(s, e, i) ==
    [t |-> "cap", s |-> s, e |-> e, w |-> i.w, h |-> i.h, big |-> IsBig(i.w, i.h),
     px |-> IF IsBig(i.w, i.h) THEN <<>> ELSE PgsPixels(i.data, i.pal, i.w * i.h)]
Err(k) == [t |-> "err", k |-> k]
End == [t |-> "end"]

HeaderLen == 13
Pds == 20   Ods == 21   Pcs == 22   Wds == 23   EndSeg == 128

PgsInitAt(r, ph) ==
    /\ run = r /\ phase = ph /\ pos = 0
    /\ start = None /\ pal = None /\ img = None /\ part = None /\ bad = None /\ ev = <<>>

PgsInit(r) == PgsInitAt(r, "read")

(* What can be read before the stream ends or its reader fails.             *)
Limit == IF Fault(run) >= 0 THEN Min2(Fault(run), Len(Stream(run))) ELSE Len(Stream(run))
Faulty == Fault(run) >= 0
Dec == Mode(run, Len(ev) + 1)
At(i) == Stream(run)[pos + i]
HasHeader == pos + HeaderLen <= Limit
MagicOk == At(1) = 80 /\ At(2) = 71
Type == At(11)
Size == At(12) * 256 + At(13)
KnownType == Type \in {Pds, Ods, Pcs, Wds, EndSeg}
Payload == Slice(Stream(run), pos + HeaderLen + 1, Size)
HasPayload == pos + HeaderLen + Size <= Limit
AtSegment(t) == phase = "read" /\ HasHeader /\ MagicOk /\ Type = t
Reads(t) == AtSegment(t) /\ Dec = "image"
Seg == pos + HeaderLen + Size

(* The request ends with an event; the next one starts with fresh registers. *)
Return(e, p) ==
    /\ ev' = Append(ev, e)
    /\ pos' = p
    /\ start' = None /\ pal' = None /\ img' = None /\ part' = None /\ bad' = None
    /\ UNCHANGED run
    \* A failing reader is not asked again.
    /\ phase' = IF e.t = "err" /\ Faulty THEN "stopped" ELSE "read"

Fail(k, p) == Return(Err(k), p)

(* An invalid or unusable segment spoils the caption; the first one counts. *)
Spoil(k, p) ==
    /\ bad' = IF IsSome(bad) THEN bad ELSE Some(k)
    /\ pos' = p
    /\ UNCHANGED <<run, phase, start, ev>>

(* No whole header is left: the end of the stream ... *)
EndOfStream ==
    /\ phase = "read" /\ ~HasHeader /\ ~Faulty /\ ~IsSome(bad)
    /\ phase' = "done" /\ ev' = Append(ev, End) /\ pos' = Len(Stream(run))
    /\ UNCHANGED <<run, start, pal, img, part, bad>>

(* ... in the middle of a spoilt caption ... *)
EndOfSpoilt ==
    /\ phase = "read" /\ ~HasHeader /\ ~Faulty /\ IsSome(bad)
    /\ Fail(Get(bad), Len(Stream(run)))

(* ... or the failure of its reader. *)
ReaderFails ==
    /\ phase = "read" /\ ~HasHeader /\ Faulty
    /\ Fail("Io", Limit)

BadHeader ==
    /\ phase = "read" /\ HasHeader /\ (~MagicOk \/ ~KnownType)
    /\ Fail("Other", pos + HeaderLen)

(* Segments that are not of interest are skipped, also beyond the end. *)
SkipSegment ==
    /\ phase = "read" /\ HasHeader /\ MagicOk
    /\ \/ Type \in {Pcs, Wds}
       \/ Type \in {Pds, Ods} /\ Dec = "time"
    /\ pos' = Seg
    /\ UNCHANGED <<run, phase, start, pal, img, part, bad, ev>>

CutSegment ==
    /\ Reads(Pds) \/ Reads(Ods)
    /\ ~HasPayload
    /\ Spoil("Io", Limit) /\ UNCHANGED <<pal, img, part>>

PdsOk == Size >= 2 /\ (Size - 2) % 5 = 0
ReadPalette ==
    /\ Reads(Pds) /\ HasPayload /\ PdsOk
    /\ pal' = Some([i \in 1..((Size - 2) \div 5) |->
                      [id |-> Payload[5 * i - 2], l |-> Payload[5 * i - 1], a |-> Payload[5 * i + 2]]])
    /\ pos' = Seg
    /\ UNCHANGED <<run, phase, start, img, part, bad, ev>>
BadPalette ==
    /\ Reads(Pds) /\ HasPayload /\ ~PdsOk
    /\ Spoil("Other", Seg) /\ UNCHANGED <<pal, img, part>>

(* Object segments: id (2), version (1), flags (1), then in the first one   *)
(* the length of the object data (3, counting the size fields), width (2)   *)
(* and height (2).                                                          *)
LastFlag == 64   FirstFlag == 128   BothFlags == 192
OFlag == Payload[4]
OLength == U24(Payload, 5)
FirstOk ==
    /\ Size >= 11 /\ OFlag \in {FirstFlag, BothFlags}
    /\ Size - 7 <= OLength
    /\ OFlag = BothFlags => Size - 7 = OLength
ContOk ==
    /\ Size >= 4 /\ OFlag = LastFlag
    /\ Len(Get(part).data) + (Size - 4) = Get(part).total
Object == [w |-> U16(Payload, 8), h |-> U16(Payload, 10), total |-> OLength - 4,
           data |-> SubSeq(Payload, 12, Size)]
OdsOk == IF IsSome(part) THEN ContOk ELSE FirstOk
Whole == IF IsSome(part) THEN TRUE ELSE OFlag = BothFlags
Done == IF IsSome(part) THEN [Get(part) EXCEPT !.data = @ \o SubSeq(Payload, 5, Size)] ELSE Object

FirstPart ==
    /\ Reads(Ods) /\ HasPayload /\ OdsOk /\ ~Whole
    /\ part' = Some(Object)
    /\ pos' = Seg
    /\ UNCHANGED <<run, phase, start, pal, img, bad, ev>>
CompleteObject ==
    /\ Reads(Ods) /\ HasPayload /\ OdsOk /\ Whole /\ IsSome(pal)
    /\ img' = Some([w |-> Done.w, h |-> Done.h, data |-> Done.data, pal |-> Get(pal)])
    /\ pal' = None /\ part' = None
    /\ pos' = Seg
    /\ UNCHANGED <<run, phase, start, bad, ev>>
ObjectWithoutPalette ==
    /\ Reads(Ods) /\ HasPayload /\ OdsOk /\ Whole /\ ~IsSome(pal)
    /\ Spoil("MissingPalette", Seg) /\ part' = None /\ UNCHANGED <<pal, img>>
BadObject ==
    /\ Reads(Ods) /\ HasPayload /\ ~OdsOk
    /\ Spoil("Other", Seg) /\ part' = None /\ UNCHANGED <<pal, img>>

Now == Ticks90(Stream(run), pos + 3)
FirstEnd ==
    /\ AtSegment(EndSeg) /\ ~IsSome(start)
    /\ start' = Some(Now)
    /\ pos' = pos + HeaderLen
    /\ UNCHANGED <<run, phase, pal, img, part, bad, ev>>
SecondEnd ==
    /\ AtSegment(EndSeg) /\ IsSome(start)
    /\ IF Dec = "time" THEN Return(Cap(Get(start), Now), pos + HeaderLen)
       ELSE IF IsSome(bad) THEN Fail(Get(bad), pos + HeaderLen)
       ELSE IF IsSome(img) THEN Return(CapImg(Get(start), Now, Get(img)), pos + HeaderLen)
       ELSE Fail("MissingImage", pos + HeaderLen)

PgsNext ==
    \/ EndOfStream \/ EndOfSpoilt \/ ReaderFails \/ BadHeader \/ SkipSegment \/ CutSegment
    \/ ReadPalette \/ BadPalette
    \/ FirstPart \/ CompleteObject \/ ObjectWithoutPalette \/ BadObject
    \/ FirstEnd \/ SecondEnd

Finished == phase \in {"done", "stopped"}
=============================================================================
