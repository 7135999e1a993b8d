-------------------------------- MODULE Twin --------------------------------
(* Several optimisers side by side, driven by new, reset and run, in any     *)
(* order, verbose or silent. Concretely an optimiser has positions, cached   *)
(* neighbours (static topologies only), bests and coefficients; the design   *)
(* property is non-interference: what an operation does is a function of the *)
(* optimiser's own history and of the random state, and a run is a function  *)
(* of the swarm it starts from, the cached neighbours, its arguments and the *)
(* random state alone.                                                       *)
(* Leak plants a design fault; the invariants must then be violated.         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Opts, Rngs, Args, MaxOps, Static, Leak
M == 7
None == -1
Mix(a, b, c, d) == (3 * a + 5 * b + 2 * c + d + 1) % M

VARIABLES term,   \* per optimiser: what its own history says about it
          conc,   \* per optimiser: [pos, nb, best, coef]
          cell,   \* something all optimisers can reach
          seenH,  \* <<key, outcome>> with the history as key
          seenS,  \* <<key, outcome>> with the starting swarm as key
          ops
vars == <<term, conc, cell, seenH, seenS, ops>>

Init == /\ term = [o \in Opts |-> <<>>]
        /\ conc = [o \in Opts |-> [pos |-> None, nb |-> None, best |-> None, coef |-> 1]]
        /\ cell = 0 /\ seenH = {} /\ seenS = {} /\ ops = 0

(* new and reset draw the swarm; static neighbours stay *)
Fresh(o, r, isNew) ==
  /\ isNew <=> term[o] = <<>>
  /\ LET nb == IF isNew \/ ~Static THEN None ELSE conc[o].nb
         c == [pos |-> Mix(r, 0, 0, IF Leak = "cell" THEN cell ELSE 0), nb |-> nb,
               best |-> IF Leak = "stale" /\ ~isNew THEN conc[o].best ELSE None,
               coef |-> IF Leak = "compound" /\ ~isNew THEN conc[o].coef ELSE 1]
         base == IF Static /\ ~isNew THEN <<"fresh", r, term[o].nb>> ELSE <<"fresh", r>>
         t == [base |-> base, nb |-> IF Static /\ ~isNew THEN term[o].nb ELSE <<>>]
     IN /\ conc' = [conc EXCEPT ![o] = c]
        /\ term' = [term EXCEPT ![o] = t]
        /\ seenH' = seenH \cup {<<t.base, c.pos>>}
        /\ UNCHANGED seenS
        /\ cell' = (cell + 1) % M

Run(o, a, r, verbose) ==
  /\ term[o] # <<>>
  /\ LET c0 == conc[o]
         nb == IF Static /\ c0.nb # None THEN c0.nb ELSE c0.pos
         noise == CASE Leak = "cell" -> cell
                    [] Leak = "verbose" -> IF verbose THEN 1 ELSE 0
                    [] Leak = "stale" -> IF c0.best = None THEN 0 ELSE c0.best
                    [] OTHER -> 0
         out == Mix(c0.pos + noise, nb, a, r * c0.coef)
         c == [pos |-> out, nb |-> IF Static THEN nb ELSE None, best |-> out,
               coef |-> IF Leak = "compound" THEN c0.coef + 1 ELSE 1]
         key == <<"run", term[o].base, term[o].nb, a, r>>
         t == [base |-> key, nb |-> IF Static /\ term[o].nb = <<>> THEN key ELSE term[o].nb]
     IN /\ conc' = [conc EXCEPT ![o] = c]
        /\ term' = [term EXCEPT ![o] = t]
        /\ seenH' = seenH \cup {<<key, out>>}
        /\ seenS' = seenS \cup {<<<<c0.pos, term[o].nb, a, r>>, out>>}
        /\ cell' = (cell + 1) % M

Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \E o \in Opts, r \in Rngs :
             \/ Fresh(o, r, TRUE) \/ Fresh(o, r, FALSE)
             \/ \E a \in Args, v \in BOOLEAN : Run(o, a, r, v)
Spec == Init /\ [][Next]_vars

Function(S) == \A p, q \in S : p[1] = q[1] => p[2] = q[2]
HistoryDecides == Function(seenH)
SwarmDecides == Function(seenS)
=============================================================================
