------------------------------ MODULE DagTrace ------------------------------
(***************************************************************************)
(* Trace validation: histories recorded from the real graph (one JSON      *)
(* object per public call, logged at its return) are behaviours of Dag.    *)
(* Every logged result is bound; "New" starts a fresh graph.               *)
(***************************************************************************)
EXTENDS Dag, Json, IOUtils

VARIABLE l

Log == ndJsonDeserialize(IOEnv.TRACE)
Max   == Len(Log)

ToSet(s) == {s[i] : i \in DOMAIN s}

IsEvent(op) == l <= Max /\ Log[l].op = op /\ l' = l + 1

(* The logged error is one of the applicable causes, or none applies. *)
ErrOK(ev, errs) == IF ev.err = "" THEN errs = {} ELSE ev.err \in errs
ResOK(ev)       == ErrOK(ev, out'.errs) /\ ToSet(ev.set) = out'.set

(* A breadth-first order: the concatenation of permutations of the layers. *)
RECURSIVE LayerOrder(_, _)
LayerOrder(s, L) ==
  IF L = << >> THEN s = << >>
  ELSE LET n == Cardinality(Head(L)) IN
       /\ Len(s) >= n
       /\ ToSet(SubSeq(s, 1, n)) = Head(L)
       /\ LayerOrder(SubSeq(s, n + 1, Len(s)), Tail(L))

PairSet(m) == {<<m[i][1], m[i][2]>> : i \in DOMAIN m}

TNew == /\ IsEvent("New")
        /\ verts' = {} /\ edges' = {} /\ vals' = [v \in Ids |-> 0]
        /\ out' = Result("New", 0, 0, {}, {})

TAddVertex    == IsEvent("AddVertex")    /\ LET e == Log[l] IN AddVertex(e.a, e.b)    /\ ResOK(e)
TDeleteVertex == IsEvent("DeleteVertex") /\ LET e == Log[l] IN DeleteVertex(e.a)      /\ ResOK(e)
TAddEdge      == IsEvent("AddEdge")      /\ LET e == Log[l] IN AddEdge(e.a, e.b)      /\ ResOK(e)
TDeleteEdge   == IsEvent("DeleteEdge")   /\ LET e == Log[l] IN DeleteEdge(e.a, e.b)   /\ ResOK(e)
TIsEdge       == IsEvent("IsEdge")       /\ LET e == Log[l] IN IsEdge(e.a, e.b)       /\ ResOK(e)
TAncestors    == IsEvent("GetAncestors") /\ LET e == Log[l] IN GetAncestors(e.a)      /\ ResOK(e)
TDescendants  == IsEvent("GetDescendants") /\ LET e == Log[l] IN GetDescendants(e.a)  /\ ResOK(e)
TReduce       == IsEvent("ReduceTransitively") /\ Reduce

(* The returned value map of the last closure query carries the stored     *)
(* values.                                                                 *)
ValuesOK(e) == \A i \in DOMAIN e.vals : vals[e.vals[i][1]] = e.vals[i][2]

TOrdered ==
  /\ \/ IsEvent("GetOrderedAncestors")   /\ LET e == Log[l] IN
        /\ ErrOK(e, VertexErrs(e.a))
        /\ IF e.err = "" THEN LayerOrder(e.set, Layers(Reverse(edges), e.a)) ELSE e.set = << >>
     \/ IsEvent("GetOrderedDescendants") /\ LET e == Log[l] IN
        /\ ErrOK(e, VertexErrs(e.a))
        /\ IF e.err = "" THEN LayerOrder(e.set, Layers(edges, e.a)) ELSE e.set = << >>
  /\ UNCHANGED absVars

(* All the views at once. *)
TViews ==
  /\ IsEvent("Views")
  /\ LET e == Log[l] IN
     /\ e.order = Cardinality(verts)
     /\ e.size = Cardinality(edges)
     /\ PairSet(e.vertices) = {<<v, vals[v]>> : v \in verts}
     /\ Len(e.vertices) = Cardinality(verts)
     /\ PairSet(e.isedge) = edges
     /\ PairSet(e.children) = edges
     /\ PairSet(e.parents) = Reverse(edges)
     /\ ToSet(e.roots) = {v \in verts : ParentsOf(edges, v) = {}}
     /\ ToSet(e.leaves) = {v \in verts : ChildrenOf(edges, v) = {}}
  /\ UNCHANGED absVars

TInit == Init /\ l = 1
TNext == \/ TNew \/ TAddVertex \/ TDeleteVertex \/ TAddEdge \/ TDeleteEdge \/ TIsEdge
         \/ TAncestors \/ TDescendants \/ TReduce \/ TOrdered \/ TViews
TSpec == TInit /\ [][TNext]_<<verts, vals, edges, out, l>>

TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  /\ PrintT("@T " \o ToJson([matched |-> d, len |-> Max]))
  /\ d = Max
============================================================================
