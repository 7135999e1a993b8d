----------------------------- MODULE Generator -----------------------------
(* Requests for swarms and their outcomes: every cell has a draw u / R of    *)
(* its own. The requests are printed as cases for the real generators.       *)
EXTENDS GeneratorOps, TLC, Json

CONSTANTS R, N, D, Fault
VARIABLES req, out, phase
vars == <<req, out, phase>>
Lens == {-1, D - 1, D, D + 1}
Shapes == {<<>>, <<N, D>>, <<D, N>>, <<N, D + 1>>, <<N + 1, D>>, <<N - 1, D>>, <<N * D>>, <<D>>, <<1, N, D>>}
Where == {"in", "edge", "below", "above", "nan", "fraction"}
Request(k) == [n : {N}, d : {D}, kind : {k}, lb : IF k = "cont" THEN Lens ELSE {-1}, ub : IF k = "cont" THEN Lens ELSE {-1},
               clamp : {-1, D, D + 1}, init : Shapes, where : Where]
Requests == {r \in Request("cont") \cup Request("binary") \cup Request("discrete") :
                /\ (r.lb = -1) = (r.ub = -1)
                /\ (r.init = <<>> => r.where = "in")
                /\ (r.kind = "discrete" => r.where = "in")}
Cells == (1..N) \X (1..D)
Low == -3
High == 5
(* values are scaled by R: low * R .. high * R *)
Value(u) == Low * R + (High - Low) * u
Init == /\ req \in Requests /\ out = <<>> /\ phase = "asked"
Draw == IF Fault = "rows" THEN {[c \in Cells |-> f[c[2]]] : f \in [1..D -> 0..(R - 1)]}
        ELSE [Cells -> 0..(R - 1)]
Generate == /\ phase = "asked"
            /\ IF Refused(req) /\ Fault # "lenient"
               THEN phase' = "refused" /\ UNCHANGED out
               ELSE /\ phase' = "made"
                    /\ IF req.init # <<>> THEN out' = <<"explicit", req.init>>
                       ELSE \E u \in Draw : out' = [c \in Cells |-> IF Fault = "wide" THEN Low * R + (High - Low) * (u[c] + u[c] \div (R - 1)) + 1 ELSE Value(u[c])]
            /\ UNCHANGED req
Spec == Init /\ [][Generate]_vars
WithinBounds == phase = "made" /\ req.init = <<>> => \A c \in Cells : Inside(<<Low * R, High * R, out[c]>>)
NeverMisfit == phase = "made" => ~Refused(req)
ExactInit == phase = "made" /\ req.init # <<>> => out[2] = <<N, D>>
Emit == phase = "asked" => PrintT(<<"CASE", ToJson([r |-> req, refused |-> Refused(req), open |-> Open(req)])>>)
(* every combination of draws is a possible swarm: nothing is shared         *)
AllSwarms == phase = "asked" => Cardinality(Draw) = R ^ (N * D)
=============================================================================
