------------------------------ MODULE IoProof ------------------------------
(* PgsIo without bounds: any size of stream, buffer and request, any number   *)
(* of requests, any failing offset, any short reads and interruptions.  Only   *)
(* positions are kept, and one request at a time.  Inv and Honest are inductive (decided by   *)
(* Apalache: they hold in Init, and a step from Anywhere keeps them).           *)
EXTENDS Integers

VARIABLES
    \* @type: Int;
    total,
    \* @type: Int;
    fault,
    \* @type: Int;
    capacity,
    \* @type: Str;
    kind,
    \* @type: Int;
    n,
    \* @type: Int;
    want,
    \* @type: Int;
    base,
    \* @type: Int;
    pos,
    \* @type: Int;
    fill,
    \* @type: Str;
    res
\* base: how many bytes the completed requests asked for

Init ==
    /\ total \in Int /\ fault \in Int /\ capacity \in Int
    /\ total >= 0 /\ fault >= -1 /\ capacity >= 1
    /\ kind = "none" /\ n = 0 /\ want = 0 /\ base = 0 /\ pos = 0 /\ fill = 0 /\ res = "ok"

FailsAt(p) == fault >= 0 /\ p >= fault
Fixed == UNCHANGED <<total, fault, capacity>>
Finish == kind' = "none" /\ base' = base + n /\ n' = 0 /\ want' = 0

Request ==
    /\ res = "ok" /\ kind = "none"
    /\ \E k \in {"read", "skip"} : kind' = k
    /\ \E m \in Int : m >= 0 /\ n' = m
    /\ want' = n'
    /\ Fixed /\ UNCHANGED <<base, pos, fill, res>>
Reading == res = "ok" /\ kind = "read"
Skipping == res = "ok" /\ kind = "skip"
Done == Reading /\ want = 0 /\ Finish /\ Fixed /\ UNCHANGED <<pos, fill, res>>
Take ==
    /\ Reading /\ want > 0 /\ fill > pos
    /\ LET k == IF fill - pos < want THEN fill - pos ELSE want
       IN pos' = pos + k /\ want' = want - k
    /\ Fixed /\ UNCHANGED <<kind, n, base, fill, res>>
NeedsData == ((Reading /\ want > 0) \/ Skipping) /\ fill = pos
Interrupted == NeedsData /\ Fixed /\ UNCHANGED <<kind, n, want, base, pos, fill, res>>
SourceFails ==
    /\ NeedsData /\ FailsAt(fill) /\ res' = "failed"
    /\ Fixed /\ UNCHANGED <<kind, n, want, base, pos, fill>>
SourceGives ==
    /\ NeedsData /\ ~FailsAt(fill) /\ fill < total
    /\ \E k \in Int : /\ 1 <= k /\ k <= capacity /\ fill + k <= total /\ (fault >= 0 => fill + k <= fault)
                      /\ fill' = fill + k
    /\ Fixed /\ UNCHANGED <<kind, n, want, base, pos, res>>
SourceEnds ==
    /\ Reading /\ want > 0 /\ fill = pos /\ ~FailsAt(fill) /\ fill >= total /\ res' = "eof"
    /\ Fixed /\ UNCHANGED <<kind, n, want, base, pos, fill>>
SkipBuffered ==
    /\ Skipping /\ fill - pos >= n
    /\ pos' = pos + n /\ Finish /\ Fixed /\ UNCHANGED <<fill, res>>
SkipSeeks ==
    /\ Skipping /\ fill - pos < n /\ (fill > pos \/ (fill >= total /\ ~FailsAt(fill)))
    /\ pos' = pos + n /\ fill' = pos + n /\ Finish /\ Fixed /\ UNCHANGED res

Next == Request \/ Done \/ Take \/ Interrupted \/ SourceFails \/ SourceGives \/ SourceEnds \/ SkipBuffered \/ SkipSeeks

Inv ==
    /\ total >= 0 /\ fault >= -1 /\ capacity >= 1 /\ base >= 0
    /\ kind \in {"none", "read", "skip"} /\ res \in {"ok", "eof", "failed"}
    /\ 0 <= want /\ want <= n /\ (kind = "none" => n = 0) /\ (kind = "skip" => want = n)
    \* every byte that was asked for is passed, no other
    /\ pos = base + n - want
    /\ pos <= fill
    \* what is buffered was there to be read
    /\ fill <= total \/ fill = pos
    /\ fault >= 0 => fill <= fault \/ fill = pos
    /\ res = "failed" => kind # "none" /\ FailsAt(pos) /\ fill = pos
    /\ res = "eof" => kind = "read" /\ want > 0 /\ pos >= total /\ fill = pos
(* The end is reported only to a request that reaches beyond the data, a       *)
(* failure only to one that touches (or a skip that ends at or behind) the      *)
(* failing offset; and what a finished read gave lies before both.             *)
Honest ==
    /\ res = "eof" => base + n > total
    /\ res = "failed" => fault >= 0 /\ pos >= fault
    /\ kind = "read" /\ want < n => pos <= total /\ (fault >= 0 => pos <= fault)

(* The states the induction begins from. *)
Anywhere ==
    /\ total \in Int /\ fault \in Int /\ capacity \in Int /\ n \in Int /\ want \in Int /\ base \in Int
    /\ pos \in Int /\ fill \in Int /\ kind \in {"none", "read", "skip"} /\ res \in {"ok", "eof", "failed"}
    /\ Inv /\ Honest
Both == Inv /\ Honest
=============================================================================
