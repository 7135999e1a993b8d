------------------------------- MODULE CostOps -------------------------------
(* The decorator: a cost of one point becomes a cost of the swarm.           *)
EXTENDS Integers, Sequences
(* what an original may return                                               *)
Numbers == {"int", "float", "npfloat", "npint", "zerodim", "inf", "nan"}
Others == {"one", "two", "matrix", "none", "text", "list", "dict", "empty"}
Acceptable(kinds) == \A i \in DOMAIN kinds : kinds[i] \in Numbers
==============================================================================
