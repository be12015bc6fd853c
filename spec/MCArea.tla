------------------------------- MODULE MCArea -------------------------------
(* All pairs of corners with coordinates of Coords.                            *)
EXTENDS Area, Sequences, TLC, Json
CONSTANTS Coords, Emit
VARIABLES c, phase
vars == <<c, phase>>
Init == phase = "given" /\ c \in [x1 : Coords, y1 : Coords, x2 : Coords, y2 : Coords]
Answered ==
    /\ phase = "given" /\ phase' = "answered" /\ UNCHANGED c
    /\ Emit => PrintT("@@" \o ToJson([c |-> c, a |-> Answer(c)]))
Spec == Init /\ [][Answered]_vars
Inside == Accepted(c) => /\ c.x1 + Width(c) - 1 = c.x2 /\ c.y1 + Height(c) - 1 = c.y2
                         /\ Width(c) \in 2..U16 /\ Height(c) \in 2..U16
(* What is refused: empty, one point high or wide, turned, or too large. *)
Refused == ~Accepted(c) => \/ c.x2 <= c.x1 \/ c.y2 <= c.y1
                           \/ (c.x1 = 0 /\ c.x2 = U16) \/ (c.y1 = 0 /\ c.y2 = U16)
=============================================================================
