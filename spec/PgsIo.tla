------------------------------- MODULE PgsIo -------------------------------
(* How the segments of a stream reach the parser: a buffered, seekable reader *)
(* over a source that gives as many bytes as it likes (at least one), may be *)
(* interrupted at any call, and may start to fail at some offset.  The        *)
(* requests are those of the parser: Read(n) - all n bytes or nothing - and   *)
(* Skip(n), which takes what is buffered and seeks over the rest.             *)
(* Pgs works on whole segments: it is entitled to, if a request never gives  *)
(* other bytes than those at the position, and fails only when it must.      *)
EXTENDS Integers, Sequences

CONSTANTS Capacity,     \* of the buffer
          Intr          \* at most so many interruptions

VARIABLES total,        \* bytes of the stream
          fault,        \* offset from which the source fails (-1: never)
          todo,         \* requests to come: <<"read" or "skip", n>>
          want,         \* bytes the read request in progress still needs
          pos, fill,    \* the buffer holds the bytes pos+1 .. fill
          got,          \* bytes given to the parser (their offsets)
          intr,         \* interruptions so far
          res           \* "ok", "eof" or "failed"
ioVars == <<total, fault, todo, want, pos, fill, got, intr, res>>

Op == todo[1]
Busy == res = "ok" /\ todo # <<>>
Reading == Busy /\ Op[1] = "read" /\ want > 0
Skipping == Busy /\ Op[1] = "skip"
NeedsData == (Reading \/ Skipping) /\ fill = pos
Empty == fill = pos
FailsAt(p) == fault >= 0 /\ p >= fault

Start ==                \* of a read request
    /\ Busy /\ Op[1] = "read" /\ want = 0
    /\ IF Op[2] = 0 THEN todo' = Tail(todo) /\ want' = 0 ELSE want' = Op[2] /\ UNCHANGED todo
    /\ UNCHANGED <<total, fault, pos, fill, got, intr, res>>
Take ==
    /\ Reading /\ fill > pos
    /\ \E k \in {IF fill - pos < want THEN fill - pos ELSE want} :
          /\ got' = got \o [i \in 1..k |-> pos + i]
          /\ pos' = pos + k
          /\ want' = want - k
          /\ todo' = IF want = k THEN Tail(todo) ELSE todo
    /\ UNCHANGED <<total, fault, fill, intr, res>>
Interrupted ==
    /\ NeedsData /\ intr < Intr /\ intr' = intr + 1
    /\ UNCHANGED <<total, fault, todo, want, pos, fill, got, res>>
SourceFails ==
    /\ NeedsData /\ FailsAt(fill)
    /\ res' = "failed"
    /\ UNCHANGED <<total, fault, todo, want, pos, fill, got, intr>>
SourceGives ==
    /\ NeedsData /\ ~FailsAt(fill) /\ fill < total
    /\ \E k \in 1..Capacity :
          /\ fill + k <= total
          /\ fault >= 0 => fill + k <= fault
          /\ fill' = fill + k
    /\ UNCHANGED <<total, fault, todo, want, pos, got, intr, res>>
SourceEnds ==           \* only a read request minds
    /\ Reading /\ Empty /\ ~FailsAt(fill) /\ fill >= total
    /\ res' = "eof"
    /\ UNCHANGED <<total, fault, todo, want, pos, fill, got, intr>>
SkipBuffered ==
    /\ Skipping /\ fill - pos >= Op[2]
    /\ pos' = pos + Op[2] /\ todo' = Tail(todo)
    /\ UNCHANGED <<total, fault, want, fill, got, intr, res>>
SkipSeeks ==            \* beyond the buffer, also beyond the end
    /\ Skipping /\ fill - pos < Op[2]
    /\ fill > pos \/ (fill >= total /\ ~FailsAt(fill))
    /\ pos' = pos + Op[2] /\ fill' = pos + Op[2] /\ todo' = Tail(todo)
    /\ UNCHANGED <<total, fault, want, got, intr, res>>

IoNext == Start \/ Take \/ Interrupted \/ SourceFails \/ SourceGives \/ SourceEnds \/ SkipBuffered \/ SkipSeeks
=============================================================================
