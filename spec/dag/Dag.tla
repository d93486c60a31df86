-------------------------------- MODULE Dag --------------------------------
(***************************************************************************)
(* The acyclic graph of pkg/dag, as its user sees it: a set of vertices    *)
(* with values and a set of edges.  Every operation is one atomic action;  *)
(* `out' is what the last operation returned.                              *)
(*                                                                         *)
(* Ids are 1..N; Zero stands for the empty (zero) id.                      *)
(* An operation that fails may report any of the causes that apply to it   *)
(* (`errs'); it succeeds exactly when no cause applies.                    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANT N

VARIABLES verts,   \* set of vertex ids in the graph
          vals,    \* value stored with each vertex (0 when absent)
          edges,   \* set of <<source, target>>
          out      \* result of the last operation

absVars == <<verts, vals, edges, out>>

Ids  == 1..N
Zero == 0
AnyId == 0..N

----------------------------------------------------------------------------
(* Graph theory.                                                           *)

ChildrenOf(E, v) == {e[2] : e \in {x \in E : x[1] = v}}
ParentsOf(E, v)  == {e[1] : e \in {x \in E : x[2] = v}}
Reverse(E)       == {<<e[2], e[1]>> : e \in E}

RECURSIVE Closure(_, _)
Closure(E, S) ==
  LET T == S \cup UNION {ChildrenOf(E, v) : v \in S}
  IN  IF T = S THEN S ELSE Closure(E, T)

Descendants(E, v) == Closure(E, ChildrenOf(E, v))
Ancestors(E, v)   == Closure(Reverse(E), ParentsOf(E, v))

Acyclic(E) == \A e \in E : e[1] \notin Descendants(E, e[1])

(* Breadth-first layers: Layers(E, v)[d] are the vertices at distance d. *)
RECURSIVE LayersFrom(_, _, _)
LayersFrom(E, seen, layer) ==
  IF layer = {} THEN << >>
  ELSE LET next == UNION {ChildrenOf(E, u) : u \in layer} \ (seen \cup layer)
       IN  <<layer>> \o LayersFrom(E, seen \cup layer, next)
Layers(E, v) == LayersFrom(E, {}, ChildrenOf(E, v))

(* An edge is redundant when a longer path connects its ends. *)
Redundant(E, e) ==
  \E c \in ChildrenOf(E, e[1]) : c # e[2] /\ e[2] \in Descendants(E, c)
Reduction(E) == {e \in E : ~Redundant(E, e)}

----------------------------------------------------------------------------
(* Causes for an operation to fail.                                        *)

AddVertexErrs(v) ==
  (IF v = Zero THEN {"ErrVertexIDEmpty"} ELSE {}) \cup
  (IF v \in verts THEN {"ErrVertexDuplicate"} ELSE {})

VertexErrs(v) ==
  IF v = Zero THEN {"ErrVertexIDEmpty"}
  ELSE IF v \notin verts THEN {"ErrVertexNotFound"} ELSE {}

EndpointErrs(s, t) ==
  (IF s = Zero THEN {"ErrEdgeSourceIDEmpty"}
   ELSE IF s \notin verts THEN {"ErrEdgeSourceIDNotFound"} ELSE {}) \cup
  (IF t = Zero THEN {"ErrEdgeTargetIDEmpty"}
   ELSE IF t \notin verts THEN {"ErrEdgeTargetIDNotFound"} ELSE {}) \cup
  (IF s = t /\ s # Zero THEN {"ErrEdgeSourceTargetIdentical"} ELSE {})

AddEdgeErrs(s, t) ==
  LET e == EndpointErrs(s, t) IN
  IF e # {} THEN e
  ELSE IF <<s, t>> \in edges THEN {"ErrEdgeDuplicate"}
  ELSE IF s \in Descendants(edges, t) THEN {"ErrEdgeLoop"} ELSE {}

DeleteEdgeErrs(s, t) ==
  LET e == EndpointErrs(s, t) IN
  IF e # {} THEN e
  ELSE IF <<s, t>> \notin edges THEN {"ErrEdgeNotFound"} ELSE {}

----------------------------------------------------------------------------
(* Operations.                                                             *)

Result(op, a, b, errs, set) ==
  [op |-> op, a |-> a, b |-> b, errs |-> errs, set |-> set]

Init ==
  /\ verts = {}
  /\ vals  = [v \in Ids |-> 0]
  /\ edges = {}
  /\ out   = Result("New", 0, 0, {}, {})

AddVertex(v, x) ==
  LET errs == AddVertexErrs(v) IN
  /\ out' = Result("AddVertex", v, x, errs, {})
  /\ IF errs = {}
     THEN /\ verts' = verts \cup {v}
          /\ vals'  = [vals EXCEPT ![v] = x]
          /\ UNCHANGED edges
     ELSE UNCHANGED <<verts, vals, edges>>

DeleteVertex(v) ==
  LET errs == VertexErrs(v) IN
  /\ out' = Result("DeleteVertex", v, 0, errs, {})
  /\ IF errs = {}
     THEN /\ verts' = verts \ {v}
          /\ vals'  = [vals EXCEPT ![v] = 0]
          /\ edges' = {e \in edges : e[1] # v /\ e[2] # v}
     ELSE UNCHANGED <<verts, vals, edges>>

AddEdge(s, t) ==
  LET errs == AddEdgeErrs(s, t) IN
  /\ out' = Result("AddEdge", s, t, errs, {})
  /\ edges' = IF errs = {} THEN edges \cup {<<s, t>>} ELSE edges
  /\ UNCHANGED <<verts, vals>>

DeleteEdge(s, t) ==
  LET errs == DeleteEdgeErrs(s, t) IN
  /\ out' = Result("DeleteEdge", s, t, errs, {})
  /\ edges' = IF errs = {} THEN edges \ {<<s, t>>} ELSE edges
  /\ UNCHANGED <<verts, vals>>

GetAncestors(v) ==
  LET errs == VertexErrs(v) IN
  /\ out' = Result("GetAncestors", v, 0, errs,
                   IF errs = {} THEN Ancestors(edges, v) ELSE {})
  /\ UNCHANGED <<verts, vals, edges>>

GetDescendants(v) ==
  LET errs == VertexErrs(v) IN
  /\ out' = Result("GetDescendants", v, 0, errs,
                   IF errs = {} THEN Descendants(edges, v) ELSE {})
  /\ UNCHANGED <<verts, vals, edges>>

IsEdge(s, t) ==
  LET errs == EndpointErrs(s, t) IN
  /\ out' = Result("IsEdge", s, t, errs,
                   IF errs = {} /\ <<s, t>> \in edges THEN {t} ELSE {})
  /\ UNCHANGED <<verts, vals, edges>>

Reduce ==
  /\ out' = Result("ReduceTransitively", 0, 0, {}, {})
  /\ edges' = Reduction(edges)
  /\ UNCHANGED <<verts, vals>>

Next ==
  \/ \E v \in AnyId : AddVertex(v, 1) \/ DeleteVertex(v)
                      \/ GetAncestors(v) \/ GetDescendants(v)
  \/ \E s, t \in AnyId : AddEdge(s, t) \/ DeleteEdge(s, t) \/ IsEdge(s, t)
  \/ Reduce

Spec == Init /\ [][Next]_absVars

----------------------------------------------------------------------------
(* What must hold of the design.                                           *)

TypeOK ==
  /\ verts \subseteq Ids
  /\ edges \subseteq (Ids \X Ids)

WellFormed ==          \* C01: no dangling edge, no self edge, no cycle
  /\ edges \subseteq (verts \X verts)
  /\ \A e \in edges : e[1] # e[2]
  /\ Acyclic(edges)

FailureIsAtomic ==     \* C01: a failed operation changes nothing
  [][out'.errs # {} => UNCHANGED <<verts, vals, edges>>]_absVars

QueriesDoNotChange ==
  [][out'.op \in {"GetAncestors", "GetDescendants", "IsEdge"}
       => UNCHANGED <<verts, vals, edges>>]_absVars

Duality ==             \* C02: ancestor and descendant are converse
  \A u, v \in verts : (u \in Ancestors(edges, v)) <=> (v \in Descendants(edges, u))

LayersPartition ==     \* C04: the layers partition the descendants
  \A v \in verts :
    LET L == Layers(edges, v) IN
    /\ UNION {L[i] : i \in DOMAIN L} = Descendants(edges, v)
    /\ \A i, j \in DOMAIN L : i # j => L[i] \cap L[j] = {}

ReductionCorrect ==    \* C06: least edge set with the same reachability
  LET R == Reduction(edges) IN
  /\ \A v \in verts : Descendants(R, v) = Descendants(edges, v)
  /\ \A e \in R : e[2] \notin Descendants(R \ {e}, e[1])
  /\ Reduction(R) = R
============================================================================
