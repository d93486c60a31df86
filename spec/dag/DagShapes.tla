------------------------------ MODULE DagShapes ------------------------------
EXTENDS DagGen

(***************************************************************************)
(* All acyclic graphs up to relabelling (every edge goes from a smaller to *)
(* a larger id), with closures queried or not, reduced, and then one more  *)
(* operation.                                                              *)
(***************************************************************************)
VARIABLE phase
redVars == <<verts, vals, inb, outb, ac, dc, out, hist, phase>>

RInit ==
  /\ GInit
  /\ phase = "vertices"

RStep(A, ph) == A /\ hist' = Append(hist, out') /\ phase' = ph

RNext ==
  \/ /\ phase = "vertices"
     /\ LET v == Cardinality(verts) + 1 IN
        RStep(AddVertex(v, Len(hist) + 1), IF v = N THEN "edges" ELSE "vertices")
  \/ /\ phase = "edges"
     /\ \/ \E s, t \in Ids : s < t /\ t \notin outb[s] /\ RStep(AddEdge(s, t), "edges")
        \/ RStep(GetAncestors(N), "queried")
        \/ RStep(GetDescendants(1), "queried")
        \/ RStep(Reduce, "reduced")
  \/ /\ phase = "queried"
     /\ \/ RStep(GetAncestors(1), "queried2")
        \/ RStep(GetDescendants(2), "queried2")
        \/ RStep(Reduce, "reduced")
  \/ /\ phase = "queried2"
     /\ RStep(Reduce, "reduced")
  \/ /\ phase = "reduced"
     /\ \/ RStep(Reduce, "end")
        \/ \E v \in Ids : \/ RStep(GetAncestors(v), "end")
                          \/ RStep(GetDescendants(v), "end")
                          \/ RStep(DeleteVertex(v), "end")
        \/ \E s, t \in Ids : s # t /\ \/ RStep(AddEdge(s, t), "end")
                                      \/ RStep(DeleteEdge(s, t), "end")
RSpec == RInit /\ [][RNext]_redVars
RView == <<verts, inb, outb, ac, dc, phase>>
REmit ==     \* histories that end in, or just after, a reduction
  (phase' = "reduced" \/ phase' = "end") => Emit(hist', verts', vals', edgesOf')
REmitGraphs ==    \* one line per graph
  phase' = "edges" => Emit(hist', verts', vals', edgesOf')
RGraphs ==        \* stop after building the graph
  phase' = "edges" \/ phase' = "vertices"
============================================================================
