---------------------------- MODULE FunctionOps ----------------------------
(* The benchmark functions: domains, values and minima.                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
AbsF(a) == IF a < 0 THEN -a ELSE a
Planar == {"beale", "booth", "bukin6", "crossintray", "easom", "eggholder", "goldstein", "himmelblau", "holdertable", "levi", "matyas", "schaffer2", "threehump"}
Spatial == {"ackley", "rastrigin", "rosenbrock", "sphere"}
Functions == Planar \cup Spatial
Unbounded == {"rosenbrock", "sphere"}
Limits(fn, i) ==         (* in hundredths *)
  CASE fn = "ackley" -> <<-3200, 3200>>
    [] fn = "beale" -> <<-450, 450>>
    [] fn = "bukin6" -> IF i = 1 THEN <<-1500, -500>> ELSE <<-300, 300>>
    [] fn \in {"easom", "schaffer2"} -> <<-10000, 10000>>
    [] fn = "eggholder" -> <<-51200, 51200>>
    [] fn = "goldstein" -> <<-200, 200>>
    [] fn \in {"himmelblau", "threehump"} -> <<-500, 500>>
    [] fn = "rastrigin" -> <<-512, 512>>
    [] OTHER -> <<-1000, 1000>>
(* a coordinate is coded as twice its value in hundredths, plus or minus one *)
(* if it lies just above or below; NaN has a code of its own                 *)
NaNCode == 999999999
InDomain(fn, row) ==
  \/ fn \in Unbounded
  \/ \A i \in DOMAIN row : row[i] # NaNCode /\ 2 * Limits(fn, i)[1] <= row[i] /\ row[i] <= 2 * Limits(fn, i)[2]
DimsOK(fn, d) == fn \in Spatial \/ d = 2
Accepted(fn, d, rows) == DimsOK(fn, d) /\ \A r \in DOMAIN rows : InDomain(fn, rows[r])

(* Polynomials at the point a/q, times their scale, as a sum of products of  *)
(* pairs of integers (so that residues can be taken before multiplying).     *)
Polynomial == {"sphere", "beale", "booth", "goldstein", "himmelblau", "matyas", "rosenbrock", "threehump"}
Sq(t) == <<t, t>>
Pow(q, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN q ELSE IF n = 2 THEN q * q ELSE IF n = 3 THEN q * q * q ELSE q * q * q * q
Terms(fn, a, q) ==
  CASE fn = "sphere" -> [i \in DOMAIN a |-> Sq(a[i])]                                                       (* q^2 *)
    [] fn = "booth" -> <<Sq(a[1] + 2 * a[2] - 7 * q), Sq(2 * a[1] + a[2] - 5 * q)>>                          (* q^2 *)
    [] fn = "himmelblau" -> <<Sq(a[1] * a[1] + q * a[2] - 11 * q * q), Sq(q * a[1] + a[2] * a[2] - 7 * q * q)>>   (* q^4 *)
    [] fn = "matyas" -> <<<<26 * a[1], a[1]>>, <<26 * a[2], a[2]>>, <<-48 * a[1], a[2]>>>>                   (* 100 q^2 *)
    [] fn = "beale" -> LET x == a[1]
                           y == a[2] IN
         <<Sq(2 * q * q * (3 * q * q - 2 * q * x + 2 * x * y)),
           Sq(q * (9 * q * q * q - 4 * q * q * x + 4 * x * y * y)),
           Sq((21 * q * q * q * q - 8 * q * q * q * x + 8 * x * y * y * y) \div 2)>>                          (* 16 q^8, q even *)
    [] fn = "rosenbrock" -> FlattenSeq([i \in 1..(Len(a) - 1) |-> <<<<100 * (q * a[i + 1] - a[i] * a[i]), q * a[i + 1] - a[i] * a[i]>>, Sq(q * (q - a[i]))>>])  (* q^4 *)
    [] fn = "goldstein" -> LET x == a[1]
                               y == a[2]
                               u == (x + y + q) * (x + y + q) * (19 * q * q - 14 * q * x + 3 * x * x - 14 * q * y + 6 * x * y + 3 * y * y)
                               v == (2 * x - 3 * y) * (2 * x - 3 * y) * (18 * q * q - 32 * q * x + 12 * x * x + 48 * q * y - 36 * x * y + 27 * y * y) IN
         <<<<Pow(q, 4) + u, 30 * Pow(q, 4) + v>>>>                                                           (* q^8 *)
    [] fn = "threehump" -> LET x == a[1]
                               y == a[2]
                               c == x * x * x IN                                                              (* 60 q^6 *)
         <<<<120 * Pow(q, 4), x * x>>, <<-63 * q * q * x, c>>, <<10 * c, c>>, <<60 * Pow(q, 4), x * y + y * y>>>>
    [] OTHER -> <<>>
Residue(ts, p) == FoldLeft(LAMBDA acc, t : (acc + (t[1] % p) * (t[2] % p)) % p, 0, ts)
Exact(ts) == FoldLeft(LAMBDA acc, t : acc + t[1] * t[2], 0, ts)

(* Values at lattice points, in 1/Scale; FALSE: no such point                *)
Lattice == {"rastrigin", "ackley", "bukin6", "easom", "schaffer2"}
ExpFifth == <<81873075, 67032005, 54881164, 44932896, 36787944, 30119421, 24659696, 20189652, 16529889, 13533528, 11080316, 9071795, 7427358,
              6081006, 4978707, 4076220, 3337327, 2732372, 2237077, 1831564, 1499558, 1227734, 1005184, 822975, 673795, 551656, 451658,
              369786, 302755, 247875, 202943, 166156>>             (* 1e8 exp(-k/5) *)
Cosine4(a) == CASE a % 4 = 0 -> 1 [] a % 4 = 2 -> -1 [] OTHER -> 0
EasomAt(n) == CASE n = 0 -> 100000000 [] n = 1 -> 5172 [] OTHER -> 0
(* <<is a lattice point, its value, the tolerance>>                          *)
LatticeValue(fn, a) ==
  CASE fn = "rastrigin" ->                       (* at a/4, times 16 *)
         <<TRUE, FoldLeft(LAMBDA acc, v : acc + 160 + v * v - 160 * Cosine4(v), 0, a), 0>>
    [] fn = "ackley" ->                          (* at a, all |a| equal; times 1e6 *)
         LET r == AbsF(a[1]) IN <<\A i \in DOMAIN a : AbsF(a[i]) = r, IF r = 0 THEN 0 ELSE 20000000 - ExpFifth[r] \div 5, 3>>
    [] fn = "bukin6" ->                          (* at (a1, a2 / 10000), |a2 - 100 a1^2| a square; times 100 *)
         LET d == AbsF(a[2] - 100 * a[1] * a[1])
             m == CHOOSE k \in 0..400 : (k * k <= d /\ (k + 1) * (k + 1) > d) \/ k = 400 IN
         <<m * m = d, 100 * m + AbsF(a[1] + 10), 0>>
    [] fn = "easom" ->                           (* at pi times a; times 1e8 *)
         <<TRUE, (IF (a[1] + a[2]) % 2 = 0 THEN -1 ELSE 1) * EasomAt((a[1] - 1) * (a[1] - 1) + (a[2] - 1) * (a[2] - 1)), 3>>
    [] fn = "schaffer2" ->                       (* at (a, +-a); times 10000 *)
         LET b == 500 + a[1] * a[1] IN <<AbsF(a[1]) = AbsF(a[2]) /\ AbsF(a[1]) <= 10, (5000 * (b * b - 250000)) \div (b * b), 1>>
    [] OTHER -> <<FALSE, 0, 0>>

(* Documented minima, points and values in 1e-6 resp. 1e-5                   *)
MinValue(fn) == CASE fn = "crossintray" -> -206261 [] fn = "easom" -> -100000 [] fn = "eggholder" -> -95964070
                  [] fn = "goldstein" -> 300000 [] fn = "holdertable" -> -1920850 [] OTHER -> 0
MinTolerance(fn) == CASE fn \in {"eggholder", "holdertable"} -> 6 [] OTHER -> 1
M4(x, y) == {<<x, y>>, <<-x, y>>, <<x, -y>>, <<-x, -y>>}
MinPoints(fn) ==         (* two-dimensional *)
  CASE fn = "beale" -> {<<3000000, 500000>>}
    [] fn = "booth" -> {<<1000000, 3000000>>}
    [] fn = "bukin6" -> {<<-10000000, 1000000>>}
    [] fn = "crossintray" -> M4(1349410, 1349410)
    [] fn = "easom" -> {<<3141593, 3141593>>}
    [] fn = "eggholder" -> {<<512000000, 404231900>>}
    [] fn = "goldstein" -> {<<0, -1000000>>}
    [] fn = "himmelblau" -> {<<3000000, 2000000>>, <<-2805118, 3131312>>, <<-3779310, -3283186>>, <<3584428, -1848126>>}
    [] fn = "holdertable" -> M4(8055020, 9664590)
    [] fn \in {"levi", "rosenbrock"} -> {<<1000000, 1000000>>}
    [] OTHER -> {<<0, 0>>}
IsMinPoint(fn, p) == IF Len(p) = 2 THEN p \in MinPoints(fn)
                     ELSE fn \in Spatial /\ \A i \in DOMAIN p : p[i] = (IF fn = "rosenbrock" THEN 1000000 ELSE 0)

(* points between which a function does not distinguish                      *)
Even == {"crossintray", "holdertable", "schaffer2", "sphere", "rastrigin", "ackley"}
Swappable == {"crossintray", "schaffer2", "easom", "matyas", "sphere", "rastrigin", "ackley"}
Point(fn, p) == LET e == IF fn \in Even THEN [i \in DOMAIN p |-> AbsF(p[i])] ELSE p IN
  IF fn \in Swappable /\ Len(p) = 2 THEN {<<e[1], e[2]>>, <<e[2], e[1]>>} ELSE {e}
==============================================================================
