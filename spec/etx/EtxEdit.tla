------------------------------ MODULE EtxEdit ------------------------------
(***************************************************************************)
(* What may be done with trees: a document is written and parsed, then     *)
(* parts of trees are cloned, and trees are edited.  Every tree is a value  *)
(* of its own: an operation on one changes no other.                       *)
(*                                                                         *)
(* A place in a tree is a path: a sequence of indexes into the contents of  *)
(* the nodes from the root on.                                             *)
(***************************************************************************)
EXTENDS EtxGen
LOCAL INSTANCE SequencesExt

CONSTANTS Ops           \* operations on the trees of one document

VARIABLES doc, trees, steps, left
evars == <<text, text2, todo, fuel, hits, doc, trees, steps, left>>

RECURSIVE At2(_, _), Put(_, _, _), Paths(_)
At2(t, path) == IF path = << >> THEN t ELSE At2(t.c[path[1]].v, Tail(path))
Put(t, path, new) ==
  IF path = << >> THEN new
  ELSE [t EXCEPT !.c[path[1]].v = Put(t.c[path[1]].v, Tail(path), new)]
(* All paths to nodes. *)
Paths(t) ==
  FoldLeft(LAMBDA a, k :
             IF t.c[k].k = "n" THEN LET ps == Paths(t.c[k].v) IN a \o [j \in 1..Len(ps) |-> <<k>> \o ps[j]] ELSE a,
           << << >> >>, [k \in 1..Len(t.c) |-> k])

D(n) == Rnd(n, Len(steps) + left + Len(text))
Choose(s) == s[1 + D(Len(s))]
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Where(t, Test(_, _, _)) ==     \* places <<path, index>> of captures that pass the test (node, capture, index)
  LET ps == Paths(t) IN
  FoldLeft(LAMBDA a, p : LET n == At2(t, p) IN
             a \o SelectSeq([k \in 1..Len(n.c) |-> <<p, k>>], LAMBDA q : Test(n, n.c[q[2]], q[2])), << >>, ps)

Texts1 == {"Label", "Key", "Name", "Parts", "Labels", "Text", "Escaped", "Unicode", "SingleLine", "Multiline", "Op", "DeclType", "EmptyLine"}
IsText(n, x, k) == x.k = "s" /\ (x.f \in Texts1 \/ x.f = "Number") /\ ~(n.n = "ExprCase")
IsItem(n, x, k) == x.k = "n" /\ Repeats(n.n, x.f)
IsTwin(n, x, k) == IsItem(n, x, k) /\ \E j \in (k + 1)..Len(n.c) : n.c[j].f = x.f
IsPart(n, x, k) == x.k = "n"

(* An operation: its name, the tree, the place, what it needs, and the tree it makes. *)
Step(o, i, p, k, a, t) == [op |-> o, tree |-> i, path |-> p, at |-> k, arg |-> a, made |-> t]
NoArg == [tree |-> 0, path |-> << >>, at |-> 0, text |-> ""]

Apply(s) == /\ steps' = Append(steps, s)
            /\ trees' = [trees EXCEPT ![s.tree] = s.made]
New(s) == /\ steps' = Append(steps, s)
          /\ trees' = Append(trees, s.made)
Nothing == UNCHANGED <<trees, steps>>
(* Drawn values are bound once. *)
Drawn(s) == {Choose(s)}

Clone(i) == \E p \in Drawn(IF D(3) = 0 THEN << << >> >> ELSE Paths(trees[i])) :
              New(Step("clone", i, p, 0, NoArg, At2(trees[i], p)))
SetText(i) ==
  LET ws == Where(trees[i], IsText) IN
  IF ws = << >> THEN Nothing
  ELSE \E q \in Drawn(ws) :
       LET n == At2(trees[i], q[1]) IN
       \E v \in Drawn(CASE n.c[q[2]].f = "Number" -> <<"77", "123456789012345678901234567890">>
                        [] n.c[q[2]].f = "EmptyLine" -> <<"\n\n\n">>
                        [] n.c[q[2]].f = "Escaped" -> <<"\\n", "\\'">>
                        [] n.c[q[2]].f = "Unicode" -> <<"00E9">>
                        [] OTHER -> <<"zz", "q_9">>) :
         Apply(Step("set", i, q[1], q[2], [NoArg EXCEPT !.text = v], Put(trees[i], q[1], [n EXCEPT !.c[q[2]].v = v])))
Delete(i) ==
  LET ws == Where(trees[i], IsItem) IN
  IF ws = << >> THEN Nothing
  ELSE \E q \in Drawn(ws) :
       LET n == At2(trees[i], q[1])
       IN Apply(Step("delete", i, q[1], q[2], NoArg, Put(trees[i], q[1], [n EXCEPT !.c = Drop(n.c, q[2])])))
Swap(i) ==
  LET ws == Where(trees[i], IsTwin) IN
  IF ws = << >> THEN Nothing
  ELSE \E q \in Drawn(ws) :
       LET n == At2(trees[i], q[1]) IN
       \E j \in Drawn(SelectSeq([m \in 1..Len(n.c) |-> m], LAMBDA m : m > q[2] /\ n.c[m].f = n.c[q[2]].f)) :
         Apply(Step("swap", i, q[1], q[2], [NoArg EXCEPT !.at = j],
                    Put(trees[i], q[1], [n EXCEPT !.c[q[2]] = n.c[j], !.c[j] = n.c[q[2]]])))
(* A clone of a part takes the place of a part of the same kind. *)
Graft(i) ==
  LET ws == Where(trees[i], IsPart) IN
  IF ws = << >> THEN Nothing
  ELSE \E q \in Drawn(ws) : \E from \in {1 + D(Len(trees))} :
       LET n == At2(trees[i], q[1])
           vs == Where(trees[from], LAMBDA m, x, k : x.k = "n" /\ x.t = n.c[q[2]].t)
       IN IF vs = << >> THEN Nothing
          ELSE \E r \in Drawn(vs) :
               Apply(Step("graft", i, q[1], q[2], [NoArg EXCEPT !.tree = from, !.path = r[1], !.at = r[2]],
                          Put(trees[i], q[1], [n EXCEPT !.c[q[2]].v = At2(trees[from], r[1]).c[r[2]].v])))
(* A clone of an item is put before it. *)
Insert(i) ==
  LET ws == Where(trees[i], IsItem) IN
  IF ws = << >> THEN Nothing
  ELSE \E q \in Drawn(ws) :
       LET n == At2(trees[i], q[1])
       IN Apply(Step("insert", i, q[1], q[2], NoArg,
                     Put(trees[i], q[1], [n EXCEPT !.c = SubSeq(n.c, 1, q[2]) \o SubSeq(n.c, q[2], Len(n.c))])))
(* Two items of the same kind change places, the nodes themselves, also between
   trees; neither may hold the other. *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Move(i) ==
  LET ws == Where(trees[i], IsItem) IN
  IF ws = << >> THEN Nothing
  ELSE \E q \in Drawn(ws) : \E j \in {1 + D(Len(trees))} :
       LET n == At2(trees[i], q[1])
           vs == Where(trees[j], LAMBDA m, x, k : IsItem(m, x, k) /\ x.t = n.c[q[2]].t)
           Beside(r) == i # j \/ ~(Prefix(Append(q[1], q[2]), Append(r[1], r[2])) \/ Prefix(Append(r[1], r[2]), Append(q[1], q[2])))
           us == SelectSeq(vs, Beside)
       IN IF us = << >> THEN Nothing
          ELSE \E r \in Drawn(us) :
               LET m == At2(trees[j], r[1])
                   x == n.c[q[2]].v
                   y == m.c[r[2]].v
                   t1 == Put(trees[i], Append(q[1], q[2]), y)
                   t2 == Put(IF i = j THEN t1 ELSE trees[j], Append(r[1], r[2]), x)
                   made == IF i = j THEN t2 ELSE t1
               IN /\ steps' = Append(steps, Step("move", i, q[1], q[2], [NoArg EXCEPT !.tree = j, !.path = r[1], !.at = r[2]], made)
                                             @@ [made2 |-> t2])
                  /\ trees' = [trees EXCEPT ![i] = made, ![j] = t2]
Refs(i) == IF trees[i].n # "AST" THEN Nothing ELSE Apply(Step("refs", i, << >>, 0, NoArg, trees[i]))

(* A function with an expression makes a lambda: the language has no text for it yet. *)
LambdaOf(f, e) ==
  [n |-> "Lambda", p |-> f.p,
   c |-> (LET cs == SelectSeq(f.c, LAMBDA x : x.f = "Body" /\ Has(x.v, "Comment")) IN
          IF cs = << >> THEN << >> ELSE <<[f |-> "Comment", k |-> "n", t |-> "Comment", v |-> The(cs[1].v, "Comment")]>>)
      \o (LET ps == SelectSeq(f.c, LAMBDA x : x.f = "Parameters") IN
          [k \in 1..Len(ps) |-> [f |-> "Parameters", k |-> "n", t |-> "LambdaParameter", v |-> [ps[k].v EXCEPT !.n = "LambdaParameter"]]])
      \o <<[f |-> "Expr", k |-> "n", t |-> "Expr", v |-> e]>>]
Bodies(t) == Where(t, LAMBDA n, x, k : n.n = "Func" /\ x.f = "Body" /\ Has(x.v, "Expr"))
Lambda(i) ==
  LET ws == Bodies(trees[i]) IN
  IF ws = << >> THEN Nothing
  ELSE \E q \in Drawn(ws) :
       LET f == At2(trees[i], q[1])
       IN New(Step("lambda", i, q[1], q[2], NoArg, LambdaOf(f, The(f.c[q[2]].v, "Expr"))))

Begin ==
  /\ todo = << >> /\ left = 0
  /\ doc' = Doc(text)
  /\ trees' = IF doc'.ok THEN <<doc'.tree>> ELSE << >>
  /\ steps' = << >>
  /\ \E k \in {Draw(Ops)} : left' = k + 2
  /\ UNCHANGED <<text, text2, todo, fuel, hits>>

Act ==
  /\ left > 1 /\ trees # << >>
  /\ \E i \in {1 + D(Len(trees))} : \E o \in {IF Len(trees) = 1 /\ D(2) = 0 THEN 0 ELSE D(15)} :
       CASE o \in {0, 1} -> IF Len(trees) < 4 THEN Clone(i) ELSE SetText(i)
         [] o = 2 -> IF Start = "lfunc" /\ Len(trees) < 4 THEN Lambda(i) ELSE SetText(i)
         [] o \in {3, 4} -> SetText(i)
         [] o = 5 -> Delete(i)
         [] o = 6 -> Swap(i)
         [] o \in {7, 8} -> Graft(i)
         [] o = 9 -> Insert(i)
         [] o = 10 -> Refs(i)
         [] o \in {12, 13} -> Move(i)
         [] o = 14 -> Refs(1)
         [] o = 11 -> IF Len(trees) < 4 THEN Lambda(i) ELSE Refs(i)
  /\ left' = left - 1
  /\ UNCHANGED <<text, text2, todo, fuel, hits, doc>>

(* A step says what one tree becomes; the others stay as they are. *)
Frame == [][left > 1 /\ left' = left - 1 =>
              \A i \in 1..Len(trees) : trees'[i] = trees[i] \/ (steps' # steps /\ LET s == steps'[Len(steps')] IN s.tree = i \/ (s.op = "move" /\ s.arg.tree = i))]_evars

End ==
  /\ left = 1 \/ (left > 1 /\ trees = << >>)
  /\ IF doc.ok
     THEN PrintT("@H " \o ToJson(Told(doc) @@ [steps |-> steps, tapes |-> [k \in 1..Len(trees) |-> F(trees[k])]]))
     ELSE TRUE
  /\ left' = 0 /\ doc' = << >> /\ trees' = << >> /\ steps' = << >>
  /\ Again

EInit == Init /\ doc = << >> /\ trees = << >> /\ steps = << >> /\ left = 0
ENext == \/ left = 0 /\ (Write \/ Expand) /\ UNCHANGED <<doc, trees, steps, left>>
         \/ Begin \/ Act \/ End
ESpec == EInit /\ [][ENext]_evars
=============================================================================
