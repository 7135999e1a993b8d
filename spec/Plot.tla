-------------------------------- MODULE Plot --------------------------------
(* An animation over a recorded history, and a mesh computed in chunks by    *)
(* any number of workers.                                                    *)
EXTENDS PlotOps, FiniteSets
CONSTANTS Iters, Tokens, Lo, Hi, Delta, Workers, Fault
VARIABLES hist, frames, points, chunks, zz, phase
vars == <<hist, frames, points, chunks, zz, phase>>
F(p) == p[1] * p[1] + 7 * p[2]
Axis == [k \in 1..((Hi - Lo + Delta - 1) \div Delta) |-> Lo + (k - 1) * Delta]
M == Len(Axis)
Points == [k \in 1..(M * M) |-> <<Axis[1 + ((k - 1) % M)], Axis[1 + ((k - 1) \div M)]>>]
(* chunk c of w of n points; chunks may be empty *)
From(c, w, n) == LET q == n \div w  r == n % w IN (c - 1) * q + (IF c - 1 < r THEN c - 1 ELSE r) + 1
Chunk(c, w) == SubSeq(Points, From(c, w, M * M), From(c + 1, w, M * M) - 1)
Init == /\ hist \in [1..Iters -> Tokens] /\ frames = <<>> /\ points = Points /\ chunks = <<>> /\ zz = <<>> /\ phase \in 0..Workers
NextFrame == /\ Len(frames) < Iters - (IF Fault = "skip" THEN 1 ELSE 0)
             /\ frames' = Append(frames, <<hist[IF Fault = "last" THEN Iters ELSE Len(frames) + 1]>>)
             /\ UNCHANGED <<hist, points, chunks, zz, phase>>
Map(s) == [k \in DOMAIN s |-> F(s[k])]
Serial == phase = 0 /\ zz = <<>> /\ zz' = Map(Points) /\ UNCHANGED <<hist, frames, points, chunks, phase>>
Work == /\ phase > 0 /\ Len(chunks) < phase
        /\ chunks' = (IF Fault = "front" THEN <<Map(Chunk(Len(chunks) + 1, phase))>> \o chunks ELSE Append(chunks, Map(Chunk(Len(chunks) + 1, phase))))
        /\ UNCHANGED <<hist, frames, points, zz, phase>>
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
Gather == phase > 0 /\ Len(chunks) = phase /\ zz = <<>> /\ zz' = Concat(chunks) /\ UNCHANGED <<hist, frames, points, chunks, phase>>
Spec == Init /\ [][NextFrame \/ Serial \/ Work \/ Gather]_vars
Done == ~ENABLED NextFrame
ShowsHistory == Done => FramesOK(frames, hist)
Covers == AxisOK(Axis, Lo, Hi, Delta, 0)
SameValues == zz # <<>> => Graph(points, zz) = {<<p, F(p)>> : p \in {Points[k] : k \in DOMAIN Points}} /\ zz = Map(Points)
=============================================================================
