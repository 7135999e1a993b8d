------------------------------ MODULE SearchOps ------------------------------
(* Candidates of a search and the choice among their scores.                 *)
EXTENDS Integers, Sequences, FiniteSets

Vals(s) == {s[i] : i \in DOMAIN s}
(* all sequences that take one value from every list *)
RECURSIVE Product(_)
Product(lists) ==
  IF lists = <<>> THEN {<<>>}
  ELSE {<<v>> \o t : v \in Vals(Head(lists)), t \in Product(Tail(lists))}
IsBest(scores, k, max) == \A j \in DOMAIN scores : IF max THEN scores[j] <= scores[k] ELSE scores[j] >= scores[k]
Exactly(tried, want) == Len(tried) = Cardinality(want) /\ Vals(tried) = want
(* a value listed twice is tried twice with everything else                 *)
Times(v, s) == Cardinality({i \in DOMAIN s : s[i] = v})
RECURSIVE Copies(_, _)
Copies(t, lists) == IF lists = <<>> THEN 1 ELSE Times(Head(t), Head(lists)) * Copies(Tail(t), Tail(lists))
RECURSIVE Total(_)
Total(lists) == IF lists = <<>> THEN 1 ELSE Len(Head(lists)) * Total(Tail(lists))
ExactlyListed(tried, lists) == /\ Len(tried) = Total(lists)
                               /\ \A t \in Product(lists) : Times(t, tried) = Copies(t, lists)
InRange(v, r) == r[1] <= v /\ v <= r[2]
==============================================================================
