------------------------------ MODULE Function ------------------------------
(* Evaluating a batch: guards, then row after row; and the polynomials over  *)
(* their grids.                                                              *)
EXTENDS FunctionOps
CONSTANTS Names, Coords, MaxRows, Grid, Fault
VARIABLES fn, batch, state, out, at
vars == <<fn, batch, state, out, at>>
Rows(f) == {<<2 * (Limits(f, 1)[1 + c[1]]) + c[2], 2 * (Limits(f, 2)[1 + d[1]]) + d[2]>> : c \in Coords, d \in Coords}
Scale(f) == CASE f = "matyas" -> <<100, 4>> [] f = "beale" -> <<16, 256>> [] f = "threehump" -> <<60, 64>>
              [] f = "himmelblau" -> <<1, 16>> [] f = "rosenbrock" -> <<1, 16>> [] f = "goldstein" -> <<1, 1>> [] OTHER -> <<1, 4>>
Q(f) == IF f = "goldstein" THEN 1 ELSE 2
Value(row) == row[1] + 3 * row[2]
GridOf(f) == LET m == IF f = "goldstein" THEN 2 ELSE IF f = "beale" THEN 6 ELSE Grid IN (-m..m) \X (-m..m)
Init == /\ fn \in Names /\ batch \in UNION {[1..n -> Rows(fn)] : n \in 1..MaxRows} /\ state = "new" /\ out = <<>>
        /\ at = <<0, 0>>
Inside(row) == IF Fault = "strict" THEN \A i \in 1..2 : 2 * Limits(fn, i)[1] < row[i] /\ row[i] < 2 * Limits(fn, i)[2] ELSE InDomain(fn, row)
Refuses == CASE Fault = "first" -> ~Inside(batch[1])
             [] Fault = "all" -> \A r \in DOMAIN batch : ~Inside(batch[r])
             [] OTHER -> \E r \in DOMAIN batch : ~Inside(batch[r])
Guard == state = "new" /\ state' = (IF Refuses THEN "raised" ELSE "running") /\ UNCHANGED <<fn, batch, out, at>>
Row == /\ state = "running" /\ Len(out) < Len(batch)
       /\ out' = Append(out, IF Fault = "batch" /\ out # <<>> THEN Value(batch[Len(out) + 1]) + out[1] ELSE Value(batch[Len(out) + 1]))
       /\ state' = (IF Len(out') = Len(batch) THEN "returned" ELSE "running") /\ UNCHANGED <<fn, batch, at>>
Move == state = "new" /\ fn \in Polynomial /\ Len(batch) = 1 /\ at' \in GridOf(fn) /\ state' = "grid" /\ UNCHANGED <<fn, batch, out>>
Spec == Init /\ [][Guard \/ Row \/ Move]_vars
RaisesOutside == /\ state = "raised" => ~Accepted(fn, 2, batch)
                 /\ state \in {"running", "returned"} => Accepted(fn, 2, batch)
RowWise == \A i \in DOMAIN out : out[i] = Value(batch[i])
Full == state = "returned" => Len(out) = Len(batch)
(* the minimum, times 100000, is where it is said to be and nowhere lower    *)
Lowest == state = "grid" =>
  LET v == Exact(Terms(fn, at, Q(fn)))
      s == Scale(fn)[1] * Scale(fn)[2]
      m == (MinValue(fn) \div 100000) * s
      p == [i \in 1..2 |-> at[i] * (1000000 \div Q(fn))] IN v >= m /\ (IsMinPoint(fn, p) => v = m)
                                                               /\ (v = m => fn = "sphere" \/ IsMinPoint(fn, p))
Residues == state = "grid" => LET v == Exact(Terms(fn, at, Q(fn))) IN \A p \in {32749, 32719, 32717} : Residue(Terms(fn, at, Q(fn)), p) = v % p
(* a polynomial does not tell symmetric points apart                         *)
Symmetry == state = "grid" => LET v == Exact(Terms(fn, at, Q(fn))) IN \A b \in {<<at[2], at[1]>>, <<-at[1], at[2]>>} :
  Point(fn, at) = Point(fn, b) => Exact(Terms(fn, b, Q(fn))) = v
=============================================================================
