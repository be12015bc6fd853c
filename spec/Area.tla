-------------------------------- MODULE Area --------------------------------
(* The rectangle that two corners span.                                        *)
EXTENDS Integers

U16 == 65535
Accepted(c) == /\ c.x2 > c.x1 /\ c.y2 > c.y1
               \* the extent is a number of 16 bits
               /\ c.x2 - c.x1 + 1 <= U16 /\ c.y2 - c.y1 + 1 <= U16
Width(c) == c.x2 - c.x1 + 1
Height(c) == c.y2 - c.y1 + 1
Answer(c) ==
    IF Accepted(c)
    THEN [t |-> "area", l |-> c.x1, tp |-> c.y1, w |-> Width(c), h |-> Height(c),
          sw |-> Width(c), sh |-> Height(c), iw |-> Width(c), ih |-> Height(c), same |-> TRUE]
    ELSE [t |-> "rej"]
=============================================================================
