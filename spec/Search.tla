------------------------------- MODULE Search -------------------------------
(* A search: generates its candidates, scores one after the other with a     *)
(* newly built optimiser and keeps the best one. A search may be repeated.   *)
EXTENDS SearchOps

CONSTANTS Lists, Scores, Max, Repeats, Fault
VARIABLES todo, tried, scores, best, opt, round
vars == <<todo, tried, scores, best, opt, round>>
TwoByThree == <<<<1, 2>>, <<7>>, <<3, 4>>>>
Big == <<<<1, 2>>, <<3>>, <<5, 6>>, <<8>>>>
None == <<>>

Candidates == IF Fault = "zip" THEN {[d \in DOMAIN Lists |-> Lists[d][1 + (i % Len(Lists[d]))]] : i \in 0..1}
              ELSE Product(Lists)
Init == /\ todo = Candidates /\ tried = <<>> /\ scores = <<>> /\ best = 0 /\ round = 1
        /\ opt = "none"
Better(a, b) == IF Max THEN a > b ELSE a < b
Build == todo # {} /\ opt = "none" /\ opt' = "new" /\ UNCHANGED <<todo, tried, scores, best, round>>
Score == /\ opt = "new" \/ (Fault = "reuse" /\ opt = "used")
         /\ \E c \in todo, s \in Scores :
              /\ todo' = todo \ {c}
              /\ tried' = Append(tried, c) /\ scores' = Append(scores, s)
              /\ best' = IF best = 0 THEN 1
                         ELSE IF Fault = "last" THEN Len(tried) + 1
                         ELSE IF (IF Fault = "minonly" THEN s < scores[best] ELSE Better(s, scores[best])) THEN Len(tried) + 1 ELSE best
         /\ opt' = "used" /\ UNCHANGED round
Drop == opt = "used" /\ Fault # "reuse" /\ opt' = "none" /\ UNCHANGED <<todo, tried, scores, best, round>>
Again == /\ todo = {} /\ round < Repeats /\ round' = round + 1
         /\ todo' = (IF Fault = "exhausted" THEN {} ELSE Candidates)
         /\ tried' = <<>> /\ scores' = <<>> /\ best' = 0 /\ opt' = "none"
Spec == Init /\ [][Build \/ Score \/ Drop \/ Again]_vars
Finished == todo = {} /\ opt # "new"
TriesAll == Finished => Exactly(tried, Product(Lists))
ReturnsBest == Finished /\ tried # <<>> => IsBest(scores, best, Max)
OneRunEach == opt = "used" => Len(scores) = Len(tried)
NewEach == [][Len(tried') > Len(tried) => opt = "new"]_vars
=============================================================================
