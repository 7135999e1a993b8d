------------------------------ MODULE Topology ------------------------------
(* The construction of the neighbourhoods, for every draw and every placing  *)
(* of the particles on a small grid.                                         *)
EXTENDS TopologyOps
CONSTANTS N, K, Side,
          Fault   \* a planted mistake, or "none"
VARIABLES adj, kind, pos, drawn
vars == <<adj, kind, pos, drawn>>
I == 1..N
Grid == (1..Side) \X (1..Side)
D2(a, b) == SqNorm(Sub(a, b))
Init == /\ adj = [i \in I |-> {i}] /\ drawn = {}
        /\ \/ kind = "random" /\ pos = [i \in I |-> <<1, 1>>]
           \/ kind = "ring" /\ pos \in [I -> Grid]
(* random: every particle draws k others; links are mutual                   *)
Draw == /\ kind = "random" /\ drawn # I
        /\ LET i == CHOOSE q \in I \ drawn : \A z \in I \ drawn : q <= z
           IN \E C \in Choose(I \ {i}, K) :
                /\ adj' = [j \in I |-> IF j = i THEN adj[i] \cup C ELSE IF j \in C /\ Fault # "oneway" THEN adj[j] \cup {i} ELSE adj[j]]
                /\ drawn' = drawn \cup {i}
        /\ UNCHANGED <<kind, pos>>
(* ... and parts that cannot reach each other are linked                     *)
Link == /\ kind = "random" /\ drawn = I /\ Fault # "apart" /\ ~Connected(adj)
        /\ adj' = [i \in I |-> adj[i] \cup (I \ Reach(adj, {i}))]
        /\ UNCHANGED <<kind, pos, drawn>>
Nearest == /\ kind = "ring" /\ drawn # I
           /\ LET i == CHOOSE q \in I \ drawn : \A z \in I \ drawn : q <= z
                  dr == [j \in I |-> D2(pos[i], pos[j])]
              IN \E S \in Choose(I, K) : (IsNearest(S, i, dr, K) \/ (Fault = "far" /\ i \in S)) /\ adj' = [adj EXCEPT ![i] = S] /\ drawn' = drawn \cup {i}
           /\ UNCHANGED <<kind, pos>>
Next == Draw \/ Link \/ Nearest
Spec == Init /\ [][Next]_vars

Done == drawn = I /\ (kind = "random" /\ Fault # "apart" => Connected(adj))
RandomHolds == (kind = "random" /\ Done) => Mutual(adj) /\ Selves(adj) /\ HasOthers(adj, K) /\ Connected(adj)
(* nobody left out is nearer, and the particle itself is in                  *)
RingHolds == (kind = "ring" /\ Done) => \A i \in I :
                /\ i \in adj[i] /\ Cardinality(adj[i]) = K
                /\ \A a \in I \ adj[i], b \in adj[i] \ {i} : D2(pos[i], pos[a]) >= D2(pos[i], pos[b])
CanFinish == kind = "ring" /\ drawn # I =>
               LET i == CHOOSE q \in I \ drawn : \A z \in I \ drawn : q <= z
               IN \E S \in Choose(I, K) : IsNearest(S, i, [j \in I |-> D2(pos[i], pos[j])], K)
(* the lattice count is the Delannoy number the literature names             *)
RECURSIVE Delannoy(_, _)
Delannoy(d, r) == IF d = 0 \/ r = 0 THEN 1
                  ELSE Delannoy(d - 1, r) + Delannoy(d - 1, r - 1) + Delannoy(d, r - 1)
ASSUME \A d, r \in 0..4 : Lattice(d, r) = Delannoy(d, r)
(* a square and its centre: the centre sees all, opposite corners do not      *)
ASSUME LET P == <<<<0, 0>>, <<4, 0>>, <<4, 4>>, <<0, 4>>, <<2, 1>>>>
       IN SureNb(P, 0)[5] = {1, 2, 3, 4} /\ 3 \notin MaybeNb(P, 0)[1]
ASSUME \A T \in {<<<<0, 0, 0>>, <<4, 0, 0>>, <<0, 4, 0>>, <<0, 0, 4>>>>, <<<<4, 0, 0>>, <<0, 0, 0>>, <<0, 4, 0>>, <<0, 0, 4>>>>} :
         Inside(T, <<1, 1, 1>>) > 0 /\ Inside(T, <<9, 9, 9>>) < 0 /\ Inside(T, <<4, 4, 0>>) = 0
ASSUME \A T \in {<<<<0, 0>>, <<4, 0>>, <<0, 4>>>>, <<<<4, 0>>, <<0, 0>>, <<0, 4>>>>} :
         Inside(T, <<1, 1>>) > 0 /\ Inside(T, <<9, 9>>) < 0 /\ Inside(T, <<4, 4>>) = 0
=============================================================================
