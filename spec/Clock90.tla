------------------------------ MODULE Clock90 ------------------------------
(* Numbers too large for TLC's 32-bit integers, in limbs, divided by 90.      *)
EXTENDS Integers

(* floor(t / 90) for t = hi * 2^16 + lo < 2^32: 65536 = 90 * 728 + 16.         *)
\* @type: (Int, Int) => Int;
Ticks90Of(hi, lo) == hi * 728 + (hi * 16 + lo) \div 90

(* floor(t / 90) and t mod 90 for t = (a * 2^15 + b) * 2^15 + c < 2^33:        *)
(* 32768 = 90 * 364 + 8.                                                      *)
\* @type: (Int, Int, Int) => Int;
Stamp90(a, b, c) == LET h == a * 32768 + b IN h * 364 + (h * 8 + c) \div 90
\* @type: (Int, Int, Int) => Int;
StampRest(a, b, c) == LET h == a * 32768 + b IN (h * 8 + c) % 90
=============================================================================
