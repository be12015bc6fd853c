------------------------------- MODULE VobSub -------------------------------
(* The reader of VobSub sub files (src/vobsub): one behaviour reads one file. *)
(*                                                                           *)
(*   scan     packs are searched, their packets put together to subtitles    *)
(*   control  the commands of the complete subtitle `raw` are obeyed         *)
(*   rows     its bitmap is decoded, a row per step                          *)
(*   done     the end was reported                                           *)
EXTENDS Bytes

CONSTANT Data(_)     \* the bytes of run r

VARIABLES run, phase,
          packs,     \* where a pack start code is (found once)
          pos,       \* bytes passed over so far
          coll,      \* the subtitle being collected: [id, want, pts, data]
          raw,       \* the complete subtitle
          at, cmd,   \* the control sequence in progress, the next command in it
          reg,       \* what the commands have set so far
          bmp,       \* rows decoded so far: [y, off, runs], off per parity
          ev         \* what was returned

vobVars == <<run, phase, packs, pos, coll, raw, at, cmd, reg, bmp, ev>>

B(i) == Data(run)[i]
N == Len(Data(run))

VErr(k) == [t |-> "err", k |-> k, miss |-> <<>>]
VEnd == [t |-> "end"]

(* A presentation time stamp is 33 bits, in limbs of 3, 15 and 15 bits; in    *)
(* milliseconds (floor) and the rest in 90ths.                                *)
PtsMs(p) == Stamp90(p[1], p[2], p[3])
PtsRem(p) == StampRest(p[1], p[2], p[3])

NoReg == [start |-> None, stop |-> None, pal |-> None, al |-> None, area |-> None, offs |-> None]
NoBmp == [y |-> 0, off |-> <<0, 0>>, runs |-> <<>>]
NoSub == [pts |-> <<0, 0, 0>>, data |-> <<>>]

VobInitAt(r, ph) ==
    /\ run = r /\ phase = ph /\ packs = {} /\ pos = 0 /\ coll = None
    /\ raw = NoSub /\ at = 0 /\ cmd = 0 /\ reg = NoReg /\ bmp = NoBmp /\ ev = <<>>
VobInit(r) == VobInitAt(r, "open")

Open ==
    /\ phase = "open" /\ phase' = "scan"
    /\ packs' = {i \in 1..(N - 3) : B(i + 3) = 186 /\ B(i + 2) = 1 /\ B(i + 1) = 0 /\ B(i) = 0}
    /\ UNCHANGED <<run, pos, coll, raw, at, cmd, reg, bmp, ev>>

(* ---- Packs and packets ---------------------------------------------------- *)
Bit(b, v) == (b \div v) % 2 = 1
Ahead == {i \in packs : i > pos}
P == CHOOSE i \in Ahead : \A j \in Ahead : i <= j      \* the next pack start

Low3(b) == b % 8
PackOk(p) ==
    /\ p + 13 <= N
    /\ B(p + 4) \div 64 = 1 /\ Bit(B(p + 4), 4)
    /\ Bit(B(p + 6), 4) /\ Bit(B(p + 8), 4) /\ B(p + 9) % 2 = 1
    /\ B(p + 12) % 4 = 3
    /\ p + 13 + Low3(B(p + 13)) <= N
PesAt(p) == p + 14 + Low3(B(p + 13))         \* the packet of the pack at p
PesTag(q) ==
    /\ q + 5 <= N
    /\ B(q) = 0 /\ B(q + 1) = 0 /\ B(q + 2) = 1 /\ B(q + 3) = 189
PesLen(q) == B(q + 4) * 256 + B(q + 5)
PesCut(q) == q + 5 + PesLen(q) > N

(* A time stamp of 5 bytes at i, its first half byte being tag.               *)
StampOk(i, tag) ==
    /\ B(i) \div 16 = tag /\ B(i) % 2 = 1 /\ B(i + 2) % 2 = 1 /\ B(i + 4) % 2 = 1
Stamp(i) ==
    <<(B(i) \div 2) % 8,
      B(i + 1) * 128 + B(i + 2) \div 2,
      B(i + 3) * 128 + B(i + 4) \div 2>>
StampFlags(q) == B(q + 7) \div 64
HeadLen(q) == B(q + 8)
PesOk(q) ==
    /\ PesLen(q) >= 4
    /\ B(q + 6) \div 64 = 2
    /\ HeadLen(q) + 4 <= PesLen(q)
    /\ StampFlags(q) \in {0, 2, 3}
    /\ StampFlags(q) = 2 => HeadLen(q) >= 5 /\ StampOk(q + 9, 2)
    /\ StampFlags(q) = 3 => HeadLen(q) >= 10 /\ StampOk(q + 9, 3) /\ StampOk(q + 14, 1)
PesId(q) == B(q + 9 + HeadLen(q))
PesEnd(q) == q + 5 + PesLen(q)
PesData(q) == SubSeq(Data(run), q + 10 + HeadLen(q), PesEnd(q))

AtPack == phase = "scan" /\ Ahead # {} /\ PackOk(P) /\ PesTag(PesAt(P)) /\ ~PesCut(PesAt(P))
AtPacket == AtPack /\ PesOk(PesAt(P))
Q == PesAt(P)

EndOfData ==            \* what is only partly collected is given up
    /\ phase = "scan" /\ Ahead = {}
    /\ ev' = Append(ev, VEnd) /\ phase' = "done" /\ coll' = None /\ pos' = N
    /\ UNCHANGED <<run, packs, raw, at, cmd, reg, bmp>>
CutPacket ==            \* a packet reaches beyond the end of the data
    /\ phase = "scan" /\ Ahead # {} /\ PackOk(P) /\ PesTag(PesAt(P)) /\ PesCut(PesAt(P))
    /\ ev' = Append(ev, VErr("Other")) /\ pos' = N /\ coll' = None
    /\ UNCHANGED <<run, phase, packs, raw, at, cmd, reg, bmp>>
NoPacket ==             \* no packet of a private stream: search on
    /\ phase = "scan" /\ Ahead # {}
    /\ ~(PackOk(P) /\ PesTag(Q) /\ (PesCut(Q) \/ PesOk(Q)))
    /\ pos' = P + 3
    /\ UNCHANGED <<run, phase, packs, coll, raw, at, cmd, reg, bmp, ev>>

Return(e) == ev' = Append(ev, e) /\ phase' = "scan"

MissingTime ==
    /\ AtPacket /\ ~IsSome(coll) /\ StampFlags(Q) = 0
    /\ Return(VErr("Other")) /\ pos' = PesEnd(Q)
    /\ UNCHANGED <<run, packs, coll, raw, at, cmd, reg, bmp>>
TooShort ==
    /\ AtPacket /\ ~IsSome(coll) /\ StampFlags(Q) # 0 /\ Len(PesData(Q)) < 2
    /\ Return(VErr("Other")) /\ pos' = PesEnd(Q)
    /\ UNCHANGED <<run, packs, coll, raw, at, cmd, reg, bmp>>
Begin ==
    /\ AtPacket /\ ~IsSome(coll) /\ StampFlags(Q) # 0 /\ Len(PesData(Q)) >= 2
    /\ coll' = Some([id |-> PesId(Q), want |-> U16(PesData(Q), 1), pts |-> Stamp(Q + 9), data |-> PesData(Q)])
    /\ pos' = PesEnd(Q)
    /\ phase' = IF Len(PesData(Q)) >= U16(PesData(Q), 1) THEN "whole" ELSE "scan"
    /\ UNCHANGED <<run, packs, raw, at, cmd, reg, bmp, ev>>
Foreign ==
    /\ AtPacket /\ IsSome(coll) /\ PesId(Q) # Get(coll).id
    /\ pos' = PesEnd(Q)
    /\ UNCHANGED <<run, phase, packs, coll, raw, at, cmd, reg, bmp, ev>>
Continue ==
    /\ AtPacket /\ IsSome(coll) /\ PesId(Q) = Get(coll).id
    /\ coll' = Some([Get(coll) EXCEPT !.data = @ \o PesData(Q)])
    /\ pos' = PesEnd(Q)
    /\ phase' = IF Len(Get(coll).data) + Len(PesData(Q)) >= Get(coll).want THEN "whole" ELSE "scan"
    /\ UNCHANGED <<run, packs, raw, at, cmd, reg, bmp, ev>>

(* ---- The control sequences ------------------------------------------------ *)
D == raw.data
First == U16(D, 3)                      \* offset (from 0) of the first sequence
Whole ==
    /\ phase = "whole"
    /\ coll' = None
    /\ LET d == SubSeq(Get(coll).data, 1, Get(coll).want)
       IN IF Len(d) < 4
          THEN Return(VErr("Other")) /\ UNCHANGED <<raw, at, cmd>>
          ELSE /\ phase' = "control" /\ UNCHANGED ev
               /\ raw' = [pts |-> Get(coll).pts, data |-> d]
               /\ at' = U16(d, 3) /\ cmd' = 0
    /\ reg' = NoReg /\ bmp' = NoBmp
    /\ UNCHANGED <<run, packs, pos>>

Drop(e) == Return(e) /\ UNCHANGED <<run, packs, pos, coll, raw, at, cmd, reg, bmp>>

(* at: offset (from 0) of the sequence; cmd: 0 or index (from 1) of the command. *)
Date == U16(D, at + 1)
Next == U16(D, at + 3)
EnterSequence ==
    /\ phase = "control" /\ cmd = 0 /\ at + 4 <= Len(D)
    /\ cmd' = at + 5
    /\ UNCHANGED <<run, phase, packs, pos, coll, raw, at, reg, bmp, ev>>
SequenceOutside ==
    /\ phase = "control" /\ cmd = 0 /\ at + 4 > Len(D)
    /\ Drop(VErr("Other"))

AtCommand == phase = "control" /\ cmd # 0
InSequence == AtCommand /\ cmd <= Len(D)
Has(n) == cmd + n <= Len(D)
Args(c) == CASE c \in {0, 1, 2} -> 0 [] c \in {3, 4} -> 2 [] c = 5 -> 6 [] c = 6 -> 4 [] OTHER -> 65535
C == D[cmd]
Arg(i) == D[cmd + i]
Hi(b) == b \div 16
Lo(b) == b % 16
First1(o, v) == IF IsSome(o) THEN o ELSE Some(v)
Nibbles == <<Hi(Arg(1)), Lo(Arg(1)), Hi(Arg(2)), Lo(Arg(2))>>
AreaArg ==
    [x1 |-> Arg(1) * 16 + Hi(Arg(2)), x2 |-> Lo(Arg(2)) * 256 + Arg(3),
     y1 |-> Arg(4) * 16 + Hi(Arg(5)), y2 |-> Lo(Arg(5)) * 256 + Arg(6)]
AreaOk(a) == a.x1 < a.x2 /\ a.y1 < a.y2
Obey(r) ==
    /\ reg' = r /\ cmd' = cmd + 1 + Args(C)
    /\ UNCHANGED <<run, phase, packs, pos, coll, raw, at, bmp, ev>>
Known == InSequence /\ C # 255 /\ Has(Args(C))

Force == Known /\ C = 0 /\ Obey(reg)
StartDate == Known /\ C = 1 /\ Obey([reg EXCEPT !.start = First1(@, Date)])
StopDate == Known /\ C = 2 /\ Obey([reg EXCEPT !.stop = First1(@, Date)])
Colours == Known /\ C = 3 /\ Obey([reg EXCEPT !.pal = First1(@, Nibbles)])
Alphas == Known /\ C = 4 /\ Obey([reg EXCEPT !.al = First1(@, Nibbles)])
Coordinates == Known /\ C = 5 /\ AreaOk(AreaArg) /\ Obey([reg EXCEPT !.area = First1(@, AreaArg)])
Offsets == Known /\ C = 6 /\ Obey([reg EXCEPT !.offs = Some(<<U16(D, cmd + 1), U16(D, cmd + 3)>>)])
EndBytes == {i \in cmd..Len(D) : D[i] = 255}
Unknown ==              \* passed over up to the next end byte
    /\ InSequence /\ C # 255 /\ ~Has(Args(C)) /\ EndBytes # {}
    /\ cmd' = CHOOSE i \in EndBytes : \A j \in EndBytes : i <= j
    /\ UNCHANGED <<run, phase, packs, pos, coll, raw, at, reg, bmp, ev>>
BadArea == Known /\ C = 5 /\ ~AreaOk(AreaArg) /\ Drop(VErr("Other"))
Unterminated ==
    /\ AtCommand
    /\ IF cmd <= Len(D) THEN C # 255 /\ ~Has(Args(C)) /\ EndBytes = {} ELSE TRUE
    /\ Drop(VErr("Other"))

AtEndByte == InSequence /\ C = 255
FollowLink ==
    /\ AtEndByte /\ Next > at
    /\ at' = Next /\ cmd' = 0
    /\ UNCHANGED <<run, phase, packs, pos, coll, raw, reg, bmp, ev>>
BackwardLink == AtEndByte /\ Next < at /\ Drop(VErr("Other"))

Missing ==
    (IF IsSome(reg.start) THEN <<>> ELSE <<"MissStart">>)
    \o (IF IsSome(reg.area) THEN <<>> ELSE <<"MissArea">>)
    \o (IF IsSome(reg.pal) THEN <<>> ELSE <<"MissPalette">>)
    \o (IF IsSome(reg.al) THEN <<>> ELSE <<"MissAlpha">>)
    \o (IF IsSome(reg.offs) THEN <<>> ELSE <<"MissOffsets">>)
MissingItem ==
    /\ AtEndByte /\ Next = at /\ Missing # <<>>
    /\ Drop([t |-> "err", k |-> Missing[1], miss |-> Missing])

(* ---- The bitmap ------------------------------------------------------------ *)
BmpEnd == First + 2
Off(i) == Get(reg.offs)[i]
OffsetsOk == Off(1) <= Off(2) /\ Off(2) <= BmpEnd
BadOffsets == AtEndByte /\ Next = at /\ Missing = <<>> /\ ~OffsetsOk /\ Drop(VErr("Other"))
StartBitmap ==
    /\ AtEndByte /\ Next = at /\ Missing = <<>> /\ OffsetsOk
    /\ phase' = "rows" /\ bmp' = NoBmp
    /\ UNCHANGED <<run, packs, pos, coll, raw, at, cmd, reg, ev>>

Width == Get(reg.area).x2 - Get(reg.area).x1 + 1
Height == Get(reg.area).y2 - Get(reg.area).y1 + 1

(* Half byte n (from 0) of the rows of one parity; there are Nibs(par). *)
Nibs(par) == 2 * (BmpEnd - Off(par + 1))
Nib(par, n) ==
    LET b == D[Off(par + 1) + (n \div 2) + 1] IN IF n % 2 = 0 THEN b \div 16 ELSE b % 16
(* The code at half byte n: [size, count, value]; size 0: it is cut.          *)
CodeAt(par, n) ==
    LET have == Nibs(par) - n
        v1 == Nib(par, n)
        v2 == v1 * 16 + Nib(par, n + 1)
        v3 == v2 * 16 + Nib(par, n + 2)
        v4 == v3 * 16 + Nib(par, n + 3)
        code(size, v) == [size |-> size, count |-> v \div 4, val |-> v % 4]
        cut == [size |-> 0, count |-> 0, val |-> 0]
    IN IF have < 1 THEN cut
       ELSE IF v1 >= 4 THEN code(1, v1)
       ELSE IF have < 2 THEN cut
       ELSE IF v1 >= 1 THEN code(2, v2)
       ELSE IF have < 3 THEN cut
       ELSE IF v2 >= 4 THEN code(3, v3)
       ELSE IF have < 4 THEN cut
       ELSE code(4, v4)
RECURSIVE Row(_, _, _, _)
Row(par, n, x, runs) ==     \* x pixels of the row are done
    IF x = Width THEN [ok |-> TRUE, n |-> n, runs |-> runs]
    ELSE LET c == CodeAt(par, n)
             k == IF c.count = 0 THEN Width - x ELSE c.count
         IN IF c.size = 0 \/ x + k > Width THEN [ok |-> FALSE, n |-> n, runs |-> runs]
            ELSE Row(par, n + c.size, x + k, AddRun(runs, <<c.val>>, k))

Parity == bmp.y % 2
Decoded == Row(Parity, 2 * bmp.off[Parity + 1], 0, bmp.runs)
DecodeRow ==
    /\ phase = "rows" /\ bmp.y < Height /\ Decoded.ok
    /\ LET d == Decoded
       IN bmp' = [y |-> bmp.y + 1, off |-> [bmp.off EXCEPT ![Parity + 1] = (d.n + 1) \div 2], runs |-> d.runs]
    /\ UNCHANGED <<run, phase, packs, pos, coll, raw, at, cmd, reg, ev>>
BadRow ==
    /\ phase = "rows" /\ bmp.y < Height /\ ~Decoded.ok
    /\ Drop(VErr("Other"))
Rev4(q) == <<q[4], q[3], q[2], q[1]>>
Deliver ==
    /\ phase = "rows" /\ bmp.y = Height
    /\ LET a == Get(reg.area)
           ms == PtsMs(raw.pts)
           s == ms + 10 * Get(reg.start)
           e == IF IsSome(reg.stop) THEN ms + 10 * Get(reg.stop) ELSE s + 5000
       IN Drop([t |-> "sub", s |-> s, e |-> e, exact |-> PtsRem(raw.pts) = 0,
                x |-> a.x1, y |-> a.y1, w |-> Width, h |-> Height,
                pal |-> Rev4(Get(reg.pal)), al |-> Rev4(Get(reg.al)), px |-> bmp.runs])

VobNext ==
    \/ Open \/ EndOfData \/ CutPacket \/ NoPacket \/ MissingTime \/ TooShort \/ Begin \/ Foreign \/ Continue
    \/ Whole \/ EnterSequence \/ SequenceOutside
    \/ Force \/ StartDate \/ StopDate \/ Colours \/ Alphas \/ Coordinates \/ Offsets \/ Unknown
    \/ BadArea \/ Unterminated \/ FollowLink \/ BackwardLink \/ MissingItem
    \/ BadOffsets \/ StartBitmap \/ DecodeRow \/ BadRow \/ Deliver

(* ---- Comparison with what was observed ------------------------------------- *)
(* An instant is the millisecond, or - if it is an exact multiple, where       *)
(* floating point may fall just below - the one before.                       *)
SameTime(exact, t, o) == o = t \/ (exact /\ o = t - 1)
=============================================================================
