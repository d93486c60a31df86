------------------------------ MODULE DagImpl ------------------------------
(***************************************************************************)
(* pkg/dag as it is built: adjacency kept on both ends of every edge and   *)
(* two caches of closures, filled by queries (recursively, from the caches *)
(* of the neighbours) and invalidated selectively by every mutation.       *)
(* One action per public method.  DagImpl refines Dag: TLC checks          *)
(* `Abs!Spec' with the results included, i.e. that the cached answers are  *)
(* those of the abstract graph in every history.                           *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANT N

VARIABLES verts, vals,
          inb, outb,   \* inb[v] / outb[v]: parents / children of v
          ac, dc,      \* ancestor / descendant cache: a set, or NoCache
          out

implVars == <<verts, vals, inb, outb, ac, dc, out>>

NoCache == {0}   \* the zero id is never a vertex

Ids   == 1..N
AnyId == 0..N
Zero  == 0

edgesOf == {<<s, t>> \in Ids \X Ids : t \in outb[s]}

Abs == INSTANCE Dag WITH edges <- edgesOf

----------------------------------------------------------------------------
(* getAncestorsIDs / getDescendantsIDs: the closure of v and the cache     *)
(* afterwards.  adj is the adjacency to follow.                            *)
RECURSIVE Fill(_, _, _)
RECURSIVE FillAll(_, _, _, _)

Fill(adj, cache, v) ==
  IF cache[v] # NoCache THEN cache
  ELSE LET c2 == FillAll(adj, cache, adj[v], {})
           set == adj[v] \cup UNION {c2[p] : p \in adj[v]}
       IN  [c2 EXCEPT ![v] = set]

FillAll(adj, cache, todo, dummy) ==
  IF todo = {} THEN cache
  ELSE LET p == CHOOSE x \in todo : TRUE
       IN  FillAll(adj, Fill(adj, cache, p), todo \ {p}, dummy)

Drop(cache, S) == [v \in Ids |-> IF v \in S THEN NoCache ELSE cache[v]]

----------------------------------------------------------------------------
Init ==
  /\ verts = {}
  /\ vals = [v \in Ids |-> 0]
  /\ inb = [v \in Ids |-> {}]
  /\ outb = [v \in Ids |-> {}]
  /\ ac = [v \in Ids |-> NoCache]
  /\ dc = [v \in Ids |-> NoCache]
  /\ out = Abs!Result("New", 0, 0, {}, {})

AddVertex(v, x) ==
  LET errs == Abs!AddVertexErrs(v) IN
  /\ out' = Abs!Result("AddVertex", v, x, errs, {})
  /\ IF errs = {}
     THEN /\ verts' = verts \cup {v}
          /\ vals' = [vals EXCEPT ![v] = x]
     ELSE UNCHANGED <<verts, vals>>
  /\ UNCHANGED <<inb, outb, ac, dc>>

DeleteVertex(v) ==
  LET errs == Abs!VertexErrs(v) IN
  /\ out' = Abs!Result("DeleteVertex", v, 0, errs, {})
  /\ IF errs = {}
     THEN LET dc1 == Fill(outb, dc, v)
              ac1 == Fill(inb, ac, v)
          IN  /\ verts' = verts \ {v}
              /\ vals' = [vals EXCEPT ![v] = 0]
              /\ outb' = [u \in Ids |-> IF u = v THEN {} ELSE outb[u] \ {v}]
              /\ inb'  = [u \in Ids |-> IF u = v THEN {} ELSE inb[u] \ {v}]
              /\ ac' = Drop(ac1, dc1[v] \cup {v})
              /\ dc' = Drop(dc1, ac1[v] \cup {v})
     ELSE UNCHANGED <<verts, vals, inb, outb, ac, dc>>

AddEdge(s, t) ==
  LET pre == Abs!EndpointErrs(s, t)
      dup == pre = {} /\ t \in outb[s]
  IN
  IF pre # {} \/ dup
  THEN /\ out' = Abs!Result("AddEdge", s, t,
                            IF dup THEN {"ErrEdgeDuplicate"} ELSE pre, {})
       /\ UNCHANGED <<verts, vals, inb, outb, ac, dc>>
  ELSE LET dc1 == Fill(outb, dc, t)
           ac1 == Fill(inb, ac, s)
           loop == s \in dc1[t]
       IN  /\ out' = Abs!Result("AddEdge", s, t,
                                IF loop THEN {"ErrEdgeLoop"} ELSE {}, {})
           /\ UNCHANGED <<verts, vals>>
           /\ IF loop
              THEN /\ UNCHANGED <<inb, outb>>
                   /\ ac' = ac1
                   /\ dc' = dc1
              ELSE /\ outb' = [outb EXCEPT ![s] = @ \cup {t}]
                   /\ inb'  = [inb EXCEPT ![t] = @ \cup {s}]
                   /\ ac' = Drop(ac1, dc1[t] \cup {t})
                   /\ dc' = Drop(dc1, ac1[s] \cup {s})

DeleteEdge(s, t) ==
  LET pre == Abs!EndpointErrs(s, t)
      missing == pre = {} /\ t \notin outb[s]
  IN
  IF pre # {} \/ missing
  THEN /\ out' = Abs!Result("DeleteEdge", s, t,
                            IF missing THEN {"ErrEdgeNotFound"} ELSE pre, {})
       /\ UNCHANGED <<verts, vals, inb, outb, ac, dc>>
  ELSE LET dc1 == Fill(outb, dc, s)
           ac1 == Fill(inb, ac, t)
       IN  /\ out' = Abs!Result("DeleteEdge", s, t, {}, {})
           /\ UNCHANGED <<verts, vals>>
           /\ outb' = [outb EXCEPT ![s] = @ \ {t}]
           /\ inb'  = [inb EXCEPT ![t] = @ \ {s}]
           /\ ac' = Drop(ac1, dc1[s] \cup {s})
           /\ dc' = Drop(dc1, ac1[t] \cup {t})

GetAncestors(v) ==
  LET errs == Abs!VertexErrs(v)
      c    == IF errs = {} THEN Fill(inb, ac, v) ELSE ac
  IN
  /\ out' = Abs!Result("GetAncestors", v, 0, errs, IF errs = {} THEN c[v] ELSE {})
  /\ ac' = c
  /\ UNCHANGED <<verts, vals, inb, outb, dc>>

GetDescendants(v) ==
  LET errs == Abs!VertexErrs(v)
      c    == IF errs = {} THEN Fill(outb, dc, v) ELSE dc
  IN
  /\ out' = Abs!Result("GetDescendants", v, 0, errs, IF errs = {} THEN c[v] ELSE {})
  /\ dc' = c
  /\ UNCHANGED <<verts, vals, inb, outb, ac>>

IsEdge(s, t) ==
  LET errs == Abs!EndpointErrs(s, t) IN
  /\ out' = Abs!Result("IsEdge", s, t, errs,
                       IF errs = {} /\ t \in outb[s] THEN {t} ELSE {})
  /\ UNCHANGED <<verts, vals, inb, outb, ac, dc>>

(* The reduction fills the descendant cache from the roots, then removes   *)
(* from every vertex the children found in the closure of another child.   *)
Reduce ==
  LET roots == {v \in verts : inb[v] = {}}
      dc1   == FillAll(outb, dc, roots, {})
      Redundant(v) == UNION {dc1[c] : c \in outb[v]}
      outb1 == [v \in Ids |-> outb[v] \ (IF v \in verts THEN Redundant(v) ELSE {})]
      inb1  == [v \in Ids |-> {s \in inb[v] : v \in outb1[s]}]
  IN
  /\ out' = Abs!Result("ReduceTransitively", 0, 0, {}, {})
  /\ UNCHANGED <<verts, vals>>
  /\ outb' = outb1
  /\ inb' = inb1
  /\ IF outb1 # outb
     THEN /\ ac' = [v \in Ids |-> NoCache]
          /\ dc' = [v \in Ids |-> NoCache]
     ELSE /\ dc' = dc1
          /\ UNCHANGED ac

NextWith(x) ==     \* x: the value stored by AddVertex
  \/ \E v \in AnyId : \/ AddVertex(v, x) \/ DeleteVertex(v)
                      \/ GetAncestors(v) \/ GetDescendants(v)
  \/ \E s, t \in AnyId : AddEdge(s, t) \/ DeleteEdge(s, t) \/ IsEdge(s, t)
  \/ Reduce

Next == NextWith(1)

Spec == Init /\ [][Next]_implVars

----------------------------------------------------------------------------
Mirrored ==      \* both ends of every edge agree
  /\ \A s, t \in Ids : (t \in outb[s]) <=> (s \in inb[t])
  /\ \A v \in Ids \ verts : inb[v] = {} /\ outb[v] = {}

CachesExact ==   \* a cached closure is the closure
  \A v \in Ids :
    /\ ac[v] # NoCache => v \in verts /\ ac[v] = Abs!Ancestors(edgesOf, v)
    /\ dc[v] # NoCache => v \in verts /\ dc[v] = Abs!Descendants(edgesOf, v)

(* Needed for invalidation to be complete: whoever is cached, so are the   *)
(* vertices its closure was computed from.                                 *)
CachesUpwardClosed ==
  \A v \in Ids :
    /\ ac[v] # NoCache => \A p \in inb[v]  : ac[p] # NoCache
    /\ dc[v] # NoCache => \A c \in outb[v] : dc[c] # NoCache

WellFormed == Abs!WellFormed
Refinement == Abs!Spec
FailureIsAtomic == Abs!FailureIsAtomic

(* The cache state without the result: what distinguishes future behaviour. *)
View == <<verts, inb, outb, ac, dc>>
============================================================================
