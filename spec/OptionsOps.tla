----------------------------- MODULE OptionsOps -----------------------------
(* Coefficient schedules in fixed-point arithmetic: a number a stands for    *)
(* a / Q. The results are exact to a few units.                              *)
EXTENDS Integers, Sequences
Q == 1048576
H == 1024
AbsO(a) == IF a < 0 THEN -a ELSE a
SgnO(a) == IF a < 0 THEN -1 ELSE 1
(* a * b for |a|, |b| < 16 Q, without leaving 32 bits *)
MulP(a, b) == LET ah == a \div H  al == a % H  bh == b \div H  bl == b % H
              IN ah * bh + (ah * bl + al * bh + (al * bl) \div H) \div H
Mul(a, b) == SgnO(a) * SgnO(b) * MulP(AbsO(a), AbsO(b))
RECURSIVE Power(_, _)
Power(a, k) == IF k = 0 THEN Q ELSE Mul(a, Power(a, k - 1))
(* the q-th root of 0 <= a <= 1 *)
RECURSIVE RootIn(_, _, _, _)
RootIn(a, q, lo, hi) == IF hi - lo <= 1 THEN lo
                        ELSE LET m == (lo + hi) \div 2
                             IN IF Power(m, q) <= a THEN RootIn(a, q, m, hi) ELSE RootIn(a, q, lo, m)
Root(a, q) == IF q = 1 \/ a = 0 THEN a ELSE IF a >= Q THEN Q ELSE RootIn(a, q, 0, Q + 1)
(* e to the power of 0 <= u <= 1 *)
RECURSIVE ExpSum(_, _, _)
ExpSum(u, k, term) == IF k > 14 \/ term = 0 THEN 0 ELSE term + ExpSum(u, k + 1, Mul(term, u) \div (k + 1))
Exp(u) == ExpSum(u, 0, Q)

(* the end value unless the caller gives one *)
DefaultEnd(name, start) == CASE name = "w" -> (2 * Q) \div 5
                             [] name = "c1" -> (4 * start) \div 5
                             [] OTHER -> start
Left(i, n) == ((n - i) * Q) \div n
Linear(start, end, i, n) == end + Mul(start - end, Left(i, n))
PowerLaw(start, end, i, n, p, q) == end + Mul(start - end, Power(Root(Left(i, n), q), p))
Decay(start, end, i, n, d1, d2n, d2d) == Mul(start - end - d1, Exp(((n * d2d) * Q) \div (n * d2d + d2n * i)))

(* the value in force after iteration i of n *)
Value(strat, start, end, i, n, par) ==
  CASE strat = "lin_variation" -> Linear(start, end, i, n)
    [] strat = "nonlin_mod" -> PowerLaw(start, end, i, n, par.p, par.q)
    [] strat = "exp_decay" -> Decay(start, end, i, n, par.d1, par.d2n, par.d2d)
    [] OTHER -> start
(* rounding of the fixed-point steps; n * d2d must stay below 2048 *)
Slack(strat) == IF strat = "lin_variation" THEN 40 ELSE 400
Fits(strat, start, end, i, n, par, got) ==
  IF strat = "random"
  THEN (IF start <= end THEN start - 2 <= got /\ got <= end + 2 ELSE end - 2 <= got /\ got <= start + 2)
  ELSE AbsO(got - Value(strat, start, end, i, n, par)) <= Slack(strat)
=============================================================================
