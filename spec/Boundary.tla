------------------------------ MODULE Boundary ------------------------------
(* A boundary handler over a run: it is given a proposed position, repairs   *)
(* it, and remembers what it returned.                                       *)
EXTENDS BoundaryOps

CONSTANTS D, Lo, Hi, Reach, MaxMoves,
          Fault   \* a planted mistake, or "none"
Strategies == {"nearest", "reflective", "periodic", "intermediate", "shrink"}
(* coordinates are multiples of Unit so that halving stays exact *)
Unit == 8
VARIABLES strategy, mem, prev, prop, res, den, n
vars == <<strategy, mem, prev, prop, res, den, n>>
LB == [d \in 1..D |-> Lo * Unit]
UB == [d \in 1..D |-> (Hi + d - 1) * Unit]
Grid(a, b) == {k * Unit : k \in a..b}
Interior == {x \in [1..D -> Grid(Lo, Hi + D - 1)] : Inside(x, LB, UB)}
Proposals == [1..D -> Grid(Lo - Reach, Hi + Reach)]

Init == /\ strategy \in Strategies /\ mem \in Interior
        /\ prev = mem /\ prop = mem /\ res = mem /\ den = 1 /\ n = 0

(* res / den is the repaired position *)
Repair(x) ==
  CASE strategy = "nearest" -> <<[d \in 1..D |-> Nearest1(x[d], LB[d], UB[d])], 1>>
    [] strategy = "reflective" -> <<[d \in 1..D |-> IF Fault = "once" /\ Out(x, LB, UB) # {}
                                                THEN (IF x[d] < LB[d] THEN 2 * LB[d] - x[d] ELSE IF x[d] > UB[d] THEN 2 * UB[d] - x[d] ELSE x[d])
                                                ELSE Reflect1(x[d], LB[d], UB[d])], 1>>
    [] strategy = "periodic" -> <<[d \in 1..D |-> IF Fault = "other" /\ Periodic1(x[d], LB[d], UB[d]) # x[d]
                                              THEN Nearest1(x[d], LB[d], UB[d]) ELSE Periodic1(x[d], LB[d], UB[d])], 1>>
    [] strategy = "intermediate" -> <<[d \in 1..D |-> Intermediate2(x[d], mem[d], LB[d], UB[d]) \div 2], 1>>
    [] OTHER -> LET s == Sigma(x, mem, LB, UB)
                IN IF Fault = "alone" THEN <<[d \in 1..D |-> Nearest1(x[d], LB[d], UB[d])], 1>> ELSE <<[d \in 1..D |-> Shrunk(x, mem, s, d)], s[2]>>

Handle == /\ n < MaxMoves
          /\ den = 1        \* a shrunk position may leave the grid: the model stops there
          /\ \E x \in Proposals :
               LET r == Repair(x)
               IN /\ prop' = x /\ prev' = mem /\ res' = r[1] /\ den' = r[2]
                  /\ mem' = IF Fault = "proposal" /\ strategy = "intermediate" THEN x ELSE IF r[2] = 1 THEN r[1] ELSE mem
          /\ n' = n + 1 /\ UNCHANGED strategy
Next == Handle
Spec == Init /\ [][Next]_vars

(* C06: every repaired position is inside, whatever was proposed *)
InBounds == \A d \in 1..D : LB[d] * den <= res[d] /\ res[d] <= UB[d] * den
(* C07 *)
InsideUnchanged == Inside(prop, LB, UB) => \A d \in 1..D : res[d] = prop[d] * den
ReflectIsRepeatedMirroring == strategy = "reflective" =>
   \A d \in 1..D : res[d] = ReflectLoop(prop[d], LB[d], UB[d])
PeriodicByRange == strategy = "periodic" =>
   \A d \in 1..D : (res[d] - prop[d]) % (UB[d] - LB[d]) = 0
(* a shrunk position is on the move, and on a bound if the move left *)
ShrinkOnTheMove == strategy = "shrink" /\ Out(prop, LB, UB) # {} =>
   /\ \A d \in 1..D : (res[d] - prev[d] * den) * (prop[d] - prev[d]) >= 0
   /\ \A d, e \in 1..D : (res[d] - prev[d] * den) * (prop[e] - prev[e]) = (res[e] - prev[e] * den) * (prop[d] - prev[d])
   /\ \E d \in Out(prop, LB, UB) : res[d] = LB[d] * den \/ res[d] = UB[d] * den
IntermediateHalfway == strategy = "intermediate" =>
   \A d \in 1..D : 2 * res[d] = Intermediate2(prop[d], prev[d], LB[d], UB[d])
=============================================================================
