----------------------------- MODULE ArithProof -----------------------------
(* The arithmetic in limbs and digits that the specification uses instead of   *)
(* large integers is the arithmetic of integers: for all values, decided by    *)
(* Apalache (SMT).  One state per value; there are no steps.                   *)
EXTENDS Clock90

VARIABLES
    \* @type: Int;
    a,
    \* @type: Int;
    b,
    \* @type: Int;
    c,
    \* @type: Int;
    q,
    \* @type: Int;
    r

Init ==
    /\ a \in Int /\ b \in Int /\ c \in Int /\ q \in Int /\ r \in Int
    /\ a >= 0 /\ b >= 0 /\ c >= 0 /\ q >= 0 /\ r >= 0
Next == UNCHANGED <<a, b, c, q, r>>

(* All 2^32 presentation times of a SUP segment.  TLC's integers suffice.      *)
Sup ==
    a < 65536 /\ b < 65536 =>
        /\ Ticks90Of(a, b) = (a * 65536 + b) \div 90
        /\ a * 728 < 2147483648 /\ a * 16 + b < 2147483648 /\ Ticks90Of(a, b) < 2147483648
(* All 2^33 presentation time stamps of an MPEG-2 packet, with the dates (of   *)
(* 1/100 s, 16 bits) and the default length added.                             *)
Vob ==
    a < 8 /\ b < 32768 /\ c < 32768 =>
        /\ Stamp90(a, b, c) = (a * 1073741824 + b * 32768 + c) \div 90
        /\ StampRest(a, b, c) = (a * 1073741824 + b * 32768 + c) % 90
        /\ (a * 32768 + b) * 364 < 2147483648 /\ (a * 32768 + b) * 8 + c < 2147483648
        /\ Stamp90(a, b, c) + 655350 + 5000 < 2147483648

(* Long division by k, one more digit: if q and r are quotient and rest of a   *)
(* number v (v = q * k + r), the digit c is put behind v, and n = r * 10 + c,   *)
(* then q * 10 + n / k and n mod k are those of v * 10 + c, and n / k is a      *)
(* digit.                                                                     *)
DivStep(k) ==
    r < k /\ c < 10 =>
        LET n == r * 10 + c
            d == n \div k
            e == n - d * k
        IN /\ d < 10 /\ 0 <= e /\ e < k
           /\ (q * k + r) * 10 + c = (q * 10 + d) * k + e
           /\ n < 2147483648
(* Multiplication by k, one more digit x = b on the left (worth a power of ten,  *)
(* which is divided out): digit and carry have the value of x * k + carry, and   *)
(* the carry stays below k.                                                    *)
MulStep(k) ==
    b < 10 /\ c < k =>
        LET n == b * k + c
            d == n - (n \div 10) * 10
        IN /\ 0 <= d /\ d < 10 /\ n \div 10 < k
           /\ d + (n \div 10) * 10 = b * k + c
           /\ n < 2147483648
Digits == /\ DivStep(60) /\ DivStep(90) /\ DivStep(1000) /\ DivStep(1024)
          /\ MulStep(60) /\ MulStep(1000) /\ MulStep(1024)

(* Hours, minutes, seconds and milliseconds in their ranges denote one time,    *)
(* and every time is denoted by the quotients and rests that are written.       *)
Fields ==
    LET s == a \div 1000
        m == s \div 60
    IN /\ ((m \div 60) * 3600 + (m % 60) * 60 + (s % 60)) * 1000 + (a % 1000) = a
       /\ b < 60 /\ c < 60 /\ r < 1000 =>
             LET t == (q * 3600 + b * 60 + c) * 1000 + r
             IN /\ t % 1000 = r /\ (t \div 1000) % 60 = c /\ ((t \div 1000) \div 60) % 60 = b
                /\ ((t \div 1000) \div 60) \div 60 = q
=============================================================================
