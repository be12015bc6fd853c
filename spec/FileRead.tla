------------------------------ MODULE FileRead ------------------------------
(* Reading by path: the path is opened, then what its bytes hold is given, in   *)
(* order, or the failure is reported with the path.                             *)
EXTENDS Integers, Sequences

CONSTANTS Jobs(_)       \* [kind, what, items] of a run; items: what the bytes hold
VARIABLES run, phase, gave
frVars == <<run, phase, gave>>
J == Jobs(run)

Readable == {"file", "blank", "link", "rawname", "dots", "relative", "pipe"}
Folders == {"dir", "dotsdir", "linkdir", "reldir"}
(* A folder can be opened; only reading it fails. *)
Opens == Readable \cup Folders
Lazy == {"image", "time"}          \* kinds whose bytes are read later, request by request
PathError == [t |-> "io", p |-> "path"]

FrInitAt(r) == run = r /\ phase = "closed" /\ gave = <<>>
Open ==
    /\ phase = "closed"
    /\ IF J.what \in Readable \/ (J.what \in Folders /\ J.kind \in Lazy)
       THEN phase' = "open" /\ UNCHANGED gave
       ELSE phase' = "closed for good" /\ gave' = <<PathError>>
    /\ UNCHANGED run
Give ==
    /\ phase = "open" /\ J.what \in Readable /\ Len(gave) < Len(J.items)
    /\ gave' = Append(gave, J.items[Len(gave) + 1])
    /\ UNCHANGED <<run, phase>>
(* A reader that fails at every request. *)
GiveError ==
    /\ phase = "open" /\ J.what \in Folders /\ gave = <<>>
    /\ gave' = <<[t |-> "err"]>> /\ UNCHANGED <<run, phase>>
Stopped == \/ phase = "closed for good"
           \/ phase = "open" /\ J.what \in Readable /\ Len(gave) = Len(J.items)
           \/ phase = "open" /\ J.what \in Folders /\ gave # <<>>
FrNext == Open \/ Give \/ GiveError
=============================================================================
