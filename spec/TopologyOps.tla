----------------------------- MODULE TopologyOps -----------------------------
(* Who is whose neighbour. An adjacency is a function from particles to sets.*)
EXTENDS PSOOps

(* ---- Von Neumann: the number of lattice points within L1 range r --------- *)
RECURSIVE Lattice(_, _)
LatticeTerm(d, q) == Lattice(d, q)
RECURSIVE SumOver(_, _, _)
SumOver(d, r, a) == IF a > r THEN 0 ELSE LatticeTerm(d, r - Abs(a)) + SumOver(d, r, a + 1)
Lattice(d, r) == IF d = 0 THEN 1 ELSE SumOver(d - 1, r, -r)

(* ---- random: mutual, at least k others, connected ------------------------ *)
Mutual(adj) == \A i, j \in DOMAIN adj : (j \in adj[i]) = (i \in adj[j])
Selves(adj) == \A i \in DOMAIN adj : i \in adj[i]
HasOthers(adj, k) == \A i \in DOMAIN adj : Cardinality(adj[i] \ {i}) >= k
RECURSIVE Reach(_, _)
Reach(adj, S) == LET T == S \cup UNION {adj[i] : i \in S}
                 IN IF T = S THEN S ELSE Reach(adj, T)
Connected(adj) == DOMAIN adj = {} \/ Reach(adj, {CHOOSE i \in DOMAIN adj : TRUE}) = DOMAIN adj

(* ---- pyramid: Delaunay neighbours of integer points ---------------------- *)
Sub(a, b) == [q \in DOMAIN a |-> a[q] - b[q]]
RECURSIVE SqNorm(_)
SqNorm(a) == IF a = <<>> THEN 0 ELSE Head(a) * Head(a) + SqNorm(Tail(a))
RECURSIVE Det(_)
Minor(M, c) == [r \in 1..(Len(M) - 1) |->
                  [q \in 1..(Len(M) - 1) |-> M[r + 1][IF q < c THEN q ELSE q + 1]]]
RECURSIVE DetSum(_, _)
DetSum(M, c) == IF c > Len(M) THEN 0
                ELSE (IF c % 2 = 1 THEN 1 ELSE -1) * M[1][c] * Det(Minor(M, c)) + DetSum(M, c + 1)
Det(M) == IF Len(M) = 1 THEN M[1][1] ELSE DetSum(M, 1)

(* twice (six times) the signed volume of the simplex T (a sequence of points) *)
Orient(T) == Det([i \in 1..(Len(T) - 1) |-> Sub(T[i], T[Len(T)])])
(* its sign tells, with the orientation, on which side of the sphere p lies   *)
Lift(a) == Append(a, SqNorm(a))
InSphere(T, p) == Det([i \in 1..Len(T) |-> Lift(Sub(T[i], p))])
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
(* how far inside the sphere p lies: positive inside                          *)
Inside(T, p) == Sgn(Orient(T)) * InSphere(T, p)

RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o AsSeq(S \ {m})
Points(P, I) == [q \in 1..Cardinality(I) |-> P[AsSeq(I)[q]]]
RECURSIVE Choose(_, _)
Choose(S, k) == IF k = 0 THEN {{}}
                ELSE IF Cardinality(S) < k THEN {}
                ELSE LET m == CHOOSE a \in S : TRUE
                     IN Choose(S \ {m}, k) \cup {T \cup {m} : T \in Choose(S \ {m}, k - 1)}
(* simplices whose sphere is empty for sure, and those for which it may be.   *)
(* The points may be shaken a little: within `tol` nothing is sure, and a     *)
(* simplex with no volume may be part of the triangulation.                   *)
Sure0(P, I, tol) == LET T == Points(P, I) IN Orient(T) # 0 /\ \A m \in DOMAIN P \ I : Inside(T, P[m]) < -tol
Maybe(P, I, tol) == LET T == Points(P, I) IN Orient(T) = 0 \/ \A m \in DOMAIN P \ I : Inside(T, P[m]) <= tol
Simplices(P) == Choose(DOMAIN P, Len(P[1]) + 1)
SureNb(P, tol) == LET E == UNION {I \X I : I \in {J \in Simplices(P) : Sure0(P, J, tol)}}
                  IN [i \in DOMAIN P |-> {j \in DOMAIN P : j # i /\ <<i, j>> \in E}]
MaybeNb(P, tol) == LET E == UNION {I \X I : I \in {J \in Simplices(P) : Maybe(P, J, tol)}}
                   IN [i \in DOMAIN P |-> {j \in DOMAIN P : <<i, j>> \in E}]
=============================================================================
