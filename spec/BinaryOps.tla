------------------------------ MODULE BinaryOps ------------------------------
(* The bits of a binary swarm: the logistic function in fixed point, and the *)
(* bit a draw gives.                                                         *)
EXTENDS Integers, Sequences

P14 == 16384
Grid == 64                 \* velocities are multiples of 1 / Grid
(* exp(-(2^k) / Grid) times P14, k = 0 .. 9 *)
ExpTable == <<16130, 15880, 15391, 14459, 12760, 9937, 6027, 2217, 300, 5>>
BitOf(a, k) == (a \div 2 ^ k) % 2
RECURSIVE ExpFrom(_, _)
ExpFrom(a, k) == IF k = 10 THEN P14
                 ELSE LET r == ExpFrom(a, k + 1)
                      IN IF BitOf(a, k) = 1 THEN (r * ExpTable[k + 1] + P14 \div 2) \div P14 ELSE r
AbsB(a) == IF a < 0 THEN -a ELSE a
ExpNeg(a) == IF a >= 1024 THEN 0 ELSE ExpFrom(a, 0)
(* P14 * logistic(v / Grid) *)
Logistic(v) ==
  LET e == ExpNeg(AbsB(v))
      small == (P14 * e) \div (P14 + e)
  IN IF v >= 0 THEN P14 - small ELSE small

(* 10^9 * logistic(-m), m = 5 .. 21: bits that are hardly ever drawn *)
RareTable == <<6692851, 2472623, 911051, 335350, 123395, 45398, 16701, 6144, 2260, 832, 306, 113, 41, 15, 6, 2, 1>>
(* how many of total such bits are expected (total a multiple of 1000)      *)
RareMean(m, total) == IF m > 21 THEN 0 ELSE ((total \div 1000) * (RareTable[m - 4] \div 100)) \div 10000

(* the bit a draw u of 0 .. R - 1 gives *)
Bit(v, u, R) == IF u * P14 < R * Logistic(v) THEN 1 ELSE 0
==============================================================================
