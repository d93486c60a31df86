------------------------------- MODULE DagBig -------------------------------
EXTENDS DagGen

(***************************************************************************)
(* Random larger graphs of several shapes, built edge by edge, queried,    *)
(* reduced, changed a little, and reduced again.                           *)
(***************************************************************************)
VARIABLES plan      \* the shape of the graph and the number of steps of each kind
bigVars == <<genVars, plan>>

Shapes == {"any", "parts", "layers", "chain", "star", "grid", "line"}
BInit == /\ GInit
         /\ plan \in [shape : Shapes, edges : {N, 2 * N, 3 * N, 5 * N}, queries : {0, 2, 6}, last : {0, 4, 10}]

Half == N \div 2
R(n) == (RandomElement(0..(1000002 + 0 * Len(hist))) \div 37) % n
Rank(v) == (v - 1) \div 3            \* layers of three
(* Does the shape have an edge from s to t?  s < t. *)
Fits(s, t) ==
  CASE plan.shape = "any" -> TRUE
    [] plan.shape = "parts" -> (s <= Half) = (t <= Half)
    [] plan.shape = "layers" -> Rank(t) \in {Rank(s) + 1, Rank(s) + 2}
    [] plan.shape = "chain" -> t - s \in {1, 2, 5}
    [] plan.shape = "star" -> s \in {1, Half} \/ t = N
    [] plan.shape = "grid" -> t - s \in {1, 3, 4}
    [] plan.shape = "line" -> t - s = 1
Fitting == {e \in Ids \X Ids : e[1] < e[2] /\ Fits(e[1], e[2])}
(* A line is completed before an edge is added twice: long paths need it.  *)
Wanted == IF plan.shape = "line" /\ Fitting \ edgesOf # {} THEN Fitting \ edgesOf ELSE Fitting
(* Edges against the order, over any distance.                              *)
Against == {e \in Ids \X Ids : e[1] < e[2] /\ (plan.shape = "line" => e[2] - e[1] > Half)}

Query(v) == IF R(2) = 0 THEN GetAncestors(v) ELSE GetDescendants(v)
Last == N + plan.edges + plan.queries + plan.last + 2
Over == N + plan.edges + plan.queries + 1
BStop == Len(hist) < Last
BStep ==
  LET l == Len(hist)
      a == N + plan.edges
      b == a + plan.queries
      c == b + 1
      d == c + plan.last
  IN CASE l < N -> AddVertex(l + 1, l + 1)
       [] l >= N /\ l < a ->
            \E e \in {RandomElement(Wanted)} : \E v \in {1 + R(N)} : \E k \in {R(12)} :
              IF k = 0 THEN Query(v) ELSE IF k = 1 /\ edgesOf # {} THEN (\E x \in {RandomElement(edgesOf)} : DeleteEdge(x[1], x[2]))
              ELSE IF k = 2 THEN (\E x \in {RandomElement(IF R(2) = 0 THEN Against ELSE Wanted)} : AddEdge(x[2], x[1])) ELSE AddEdge(e[1], e[2])
       [] l >= a /\ l < b -> \E v \in {1 + R(N)} : Query(v)
       [] l = b -> Reduce
       [] l >= c /\ l < d -> SimOp
       [] l = d -> Reduce
BNext == BStop /\ BStep /\ hist' = Append(hist, out') /\ UNCHANGED plan
BEmit == Len(hist) \in {Over, Last} => Emit(hist, verts, vals, edgesOf)
BSpec == BInit /\ [][BNext]_bigVars
=============================================================================
