------------------------------- MODULE SetAlg -------------------------------
(***************************************************************************)
(* dag.Set: handles that hold a set or nil, and every operation on them.   *)
(* Sets are values here, so a result never aliases an operand; `last'      *)
(* remembers how the latest result was made, so that the state graph       *)
(* contains a change of either side after every way of making one.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Rnd

CONSTANTS Handles, Elems, MaxLen

Nil == {0}                       \* 0 is not an element
Empty(h) == h = Nil
El(h) == IF h = Nil THEN {} ELSE h

VARIABLES val, last, hist
vars == <<val, last, hist>>

Init == /\ val = [h \in Handles |-> Nil]
        /\ last = <<"none">>
        /\ hist = << >>

Log(op, t, a, b, x, res) ==
  hist' = Append(hist, [op |-> op, t |-> t, a |-> a, b |-> b, x |-> x, res |-> res, val |-> val'])

Result(op, t, a, b, x, s) ==
  /\ val' = [val EXCEPT ![t] = s]
  /\ last' = <<op, t, a, b>>
  /\ Log(op, t, a, b, x, s)

New(t)  == Result("New", t, t, t, {}, {})
Fill(t, x) == Result("Fill", t, t, t, x, x)      \* a new set with these elements
Drop(t) == Result("Nil", t, t, t, {}, Nil)       \* the handle becomes nil

Add(t, e) ==                     \* adding to a nil set is not allowed
  /\ val[t] # Nil
  /\ val' = [val EXCEPT ![t] = @ \cup {e}]
  /\ UNCHANGED last
  /\ Log("Add", t, t, t, {e}, {})

Delete(t, e) ==
  /\ val' = [val EXCEPT ![t] = IF @ = Nil THEN Nil ELSE @ \ {e}]
  /\ UNCHANGED last
  /\ Log("Delete", t, t, t, {e}, {})

Intersection(t, a, b) == Result("Intersection", t, a, b, {}, El(val[a]) \cap El(val[b]))
Difference(t, a, b)   == Result("Difference", t, a, b, {}, El(val[a]) \ El(val[b]))
Filter(t, a, p)       == Result("Filter", t, a, a, p, El(val[a]) \cap p)
Copy(t, a)            == Result("Copy", t, a, a, {}, El(val[a]))

List(a) ==
  /\ UNCHANGED <<val, last>>
  /\ Log("List", a, a, a, {}, El(val[a]))

Includes(a, e) ==
  /\ UNCHANGED <<val, last>>
  /\ Log("Includes", a, a, a, {e}, El(val[a]) \cap {e})

Next ==
  \E t, a \in Handles :
    \/ t = a /\ (New(t) \/ Drop(t) \/ List(t))
    \/ t = a /\ \E e \in Elems : Add(t, e) \/ Delete(t, e) \/ Includes(t, e)
    \/ \E b \in Handles : Intersection(t, a, b) \/ Difference(t, a, b)
    \/ \E p \in SUBSET Elems : Filter(t, a, p)
    \/ Copy(t, a)

Spec == Init /\ [][Next]_vars
View == <<val, last>>

TypeOK == \A h \in Handles : val[h] = Nil \/ val[h] \subseteq Elems
\* Only the target of an operation ever changes.
OnlyTarget == [][\A h \in Handles : h # hist'[Len(hist')].t => val'[h] = val[h]]_vars
\* A result is never nil, and can be added to.
ResultsNotNil ==
  LET o == hist[Len(hist)] IN
  (hist # << >> /\ o.op \in {"Intersection", "Difference", "Filter", "Copy"}) => o.val[o.t] # Nil

EmitTransition == PrintT("@H " \o ToJson([h |-> hist']))

\* Simulation: a random operation per step, one line per run.
Kinds == <<"New", "Nil", "Add", "Add", "Add", "Add", "Delete", "Delete", "List", "Includes",
           "Intersection", "Intersection", "Difference", "Difference", "Filter", "Copy">>
(* What the callback of a filter accepts: all, nothing, all but one, one,   *)
(* or any half.                                                             *)
Asked(s, k, e) ==
  CASE k = 0 -> Elems
    [] k = 1 -> IF e % 2 = 0 THEN {} ELSE Elems \ El(s)
    [] k = 2 -> Elems \ {e}
    [] k = 3 -> {e}
    [] OTHER -> {x \in Elems : Rnd(2, Len(hist) + x) = 0}
SimNext ==
  \E k \in {Pick(Kinds, Len(hist))} :
  \E t \in {1 + Rnd(Cardinality(Handles), Len(hist))} : \E a \in {1 + Rnd(Cardinality(Handles), Len(hist))} :
  \E b \in {1 + Rnd(Cardinality(Handles), Len(hist))} : \E e \in {1 + Rnd(Cardinality(Elems), Len(hist))} :
  CASE k = "New"          -> New(t)
    [] k = "Nil"          -> IF e = 1 THEN Drop(t) ELSE List(a)
    [] k = "Add"          -> IF val[t] = Nil THEN New(t) ELSE Add(t, e)
    [] k = "Delete"       -> Delete(t, e)
    [] k = "List"         -> List(a)
    [] k = "Includes"     -> Includes(a, e)
    [] k = "Intersection" -> Intersection(t, a, b)
    [] k = "Difference"   -> Difference(t, a, b)
    [] k = "Filter"       -> \E p \in {Asked(val[a], Rnd(5, Len(hist)), e)} : Filter(t, a, p)
    [] k = "Copy"         -> Copy(t, a)
\* Many elements: sets are made as a whole, often with nearly the content of another.
Some(n, m, h) == {x \in Elems : Rnd(m, h + x) < n}
FillNext ==
  \E t \in {1 + Rnd(Cardinality(Handles), Len(hist))} : \E a \in {1 + Rnd(Cardinality(Handles), Len(hist))} :
  \E n \in {1 + Rnd(5, Len(hist))} : \E few \in {Some(1, 20, Len(hist))} : \E many \in {Some(n, 5, Len(hist))} :
  CASE n = 1 -> Fill(t, El(val[a]))
    [] n = 2 -> Fill(t, El(val[a]) \cup few)
    [] n = 3 -> Fill(t, El(val[a]) \ few)
    [] OTHER -> Fill(t, many)
BigNext == \E r \in {Rnd(4, Len(hist))} : IF r = 0 THEN FillNext ELSE SimNext
BigSpec == Init /\ [][BigNext]_vars
SimSpec == Init /\ [][SimNext]_vars
SimEmit == Len(hist) = MaxLen => PrintT("@H " \o ToJson([h |-> hist]))
============================================================================
