------------------------------- MODULE DagGen -------------------------------
(***************************************************************************)
(* Behaviours of DagImpl for replay on the real graph.  `hist' is the      *)
(* sequence of operations with their expected results; it is hidden by     *)
(* VIEW, so TLC prints one behaviour per transition of the state graph     *)
(* (exhaustive configurations) or one per random run (simulation).         *)
(***************************************************************************)
EXTENDS DagImpl, Json

CONSTANT Depth     \* length of simulated behaviours

VARIABLE hist

genVars == <<verts, vals, inb, outb, ac, dc, out, hist>>

(* Everything the public API shows of the current graph. *)
Obs(vs, vl, E) ==
  [verts |-> vs,
   vals  |-> vl,
   edges |-> E,
   anc   |-> [v \in Ids |-> IF v \in vs THEN Abs!Ancestors(E, v) ELSE {}],
   desc  |-> [v \in Ids |-> IF v \in vs THEN Abs!Descendants(E, v) ELSE {}],
   up    |-> [v \in Ids |-> IF v \in vs THEN Abs!Layers(Abs!Reverse(E), v) ELSE << >>],
   down  |-> [v \in Ids |-> IF v \in vs THEN Abs!Layers(E, v) ELSE << >>]]

Emit(h, vs, vl, E) == PrintT("@H " \o ToJson([h |-> h, obs |-> Obs(vs, vl, E)]))

GInit == Init /\ hist = << >>

GNext ==
  /\ NextWith(Len(hist) + 1)
  /\ hist' = Append(hist, out')

(* Exhaustive: one line per transition. *)
GSpec == GInit /\ [][GNext]_genVars
EmitTransition == Emit(hist', verts', vals', edgesOf')
GView == View

(* Simulation: a random operation per step, biased to operations that      *)
(* change or query the graph; one line per complete run.                   *)
Kinds ==
  <<"AddVertex", "AddVertex", "AddVertex", "DeleteVertex",
    "AddEdge", "AddEdge", "AddEdge", "AddEdge", "AddEdge", "AddEdge", "AddAnyEdge",
    "CutEdge", "CutEdge", "DeleteEdge",
    "GetAncestors", "GetAncestors", "GetDescendants", "GetDescendants",
    "IsEdge", "GetAny", "Reduce">>

\* RandomElement is bound by a quantifier so that it is drawn once.
SimOp ==
  \E k \in {Kinds[RandomElement(1..Len(Kinds))]} :
  \E v \in {RandomElement(AnyId)} : \E u \in {RandomElement(AnyId)} :
  \E p \in {RandomElement(Ids)} : \E q \in {RandomElement(Ids)} :
  \E n \in {RandomElement(1..6)} :
  CASE k = "AddVertex"      -> AddVertex(p, Len(hist) + 1)
    [] k = "DeleteVertex"   -> IF n > 3 THEN AddVertex(v, Len(hist) + 1) ELSE DeleteVertex(v)
    [] k = "AddEdge"        -> AddEdge(IF n < 6 /\ p > q THEN q ELSE p, IF n < 6 /\ p > q THEN p ELSE q)
    [] k = "AddAnyEdge"     -> AddEdge(v, u)
    [] k = "CutEdge"        -> IF edgesOf = {} THEN GetAncestors(p)
                               ELSE \E e \in {RandomElement(edgesOf)} : DeleteEdge(e[1], e[2])
    [] k = "DeleteEdge"     -> DeleteEdge(v, u)
    [] k = "GetAncestors"   -> GetAncestors(p)
    [] k = "GetDescendants" -> GetDescendants(p)
    [] k = "GetAny"         -> IF n > 3 THEN GetAncestors(v) ELSE GetDescendants(v)
    [] k = "IsEdge"         -> IsEdge(v, u)
    [] k = "Reduce"         -> IF n < 3 THEN Reduce ELSE GetDescendants(p)

SimNext == SimOp /\ hist' = Append(hist, out')
SimSpec == GInit /\ [][SimNext]_genVars
SimEmit == Len(hist) = Depth => Emit(hist, verts, vals, edgesOf)

============================================================================
