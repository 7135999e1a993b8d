------------------------------ MODULE PlotTrace ------------------------------
EXTENDS PlotOps, TraceBase
VARIABLE l
FailsFrames(e) ==
  Must("C22.one_frame_per_iteration", Len(e.frames) = Len(e.pos))
  \cup Must("C22.frame", \A i \in DOMAIN e.pos : i \in DOMAIN e.frames => \E q \in DOMAIN e.frames[i] : e.frames[i][q] = e.pos[i])
  \cup Must("C22.axes_in_figure", e.belongs)
FailsMesh(e) ==
  Must("C22.mesh_x", AxisOK(e.x, e.xlo, e.xhi, e.delta, 4)) \cup Must("C22.mesh_y", AxisOK(e.y, e.ylo, e.yhi, e.delta, 4))
  \cup Must("C22.mesh_points", Len(e.z) = Len(e.x) * Len(e.y))
  \cup Must("C22.mesh_values", e.z = e.want)
FailsHistory(e) ==
  Must("C22.history_positions", e.pos = e.shown)
  \cup Must("C22.history_values", e.val = e.want)
FailsLine(e) == Must("C22.cost_line", \E q \in DOMAIN e.lines : e.lines[q] = [x |-> [i \in DOMAIN e.costs |-> i - 1], y |-> e.costs])
Fails(e) == CASE e.k = "frames" -> FailsFrames(e)
              [] e.k = "mesh" -> FailsMesh(e)
              [] e.k = "history" -> FailsHistory(e)
              [] e.k = "line" -> FailsLine(e)
              [] e.k = "fact" -> Must(e.clause, e.ok)
              [] OTHER -> {"unknown line"}
TraceInit == l = 0
TraceNext == /\ l < Len(Trace)
             /\ l' = l + 1
             /\ Report(l + 1, Fails(Trace[l + 1]))
             /\ Finished(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
