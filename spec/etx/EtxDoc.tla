------------------------------- MODULE EtxDoc -------------------------------
(***************************************************************************)
(* A document: its text and everything the specification says about it.    *)
(* The invariants below hold of every document, whatever generated it.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, EtxLex, EtxParse, EtxOut
LOCAL INSTANCE SequencesExt

CONSTANT Want           \* what the harness is told besides the tree: "json", "tape";
                        \* "plain": compare with the grammar read plainly

Doc(tx) ==
  LET lx == Lex(tx)
      r == Parse(lx)
  IN [tx |-> tx, lx |-> lx, ok |-> r.ok, tree |-> r.tree, from |-> r.from, to |-> r.to]

(* The numbers of a document: literal and what it denotes. *)
RECURSIVE Numbers(_)
Numbers(t) ==
  FoldLeft(LAMBDA a, x : IF x.k = "n" THEN a \cup Numbers(x.v)
                         ELSE IF x.f = "Number" THEN a \cup {<<x.v, NumberMeaning(x.v)>>} ELSE a, {}, t.c)

(* Number tokens that are no numbers. *)
BadNumbers(toks) == LET bad == SelectSeq(toks, LAMBDA t : t.t = "Number" /\ ~IsNumber(t.v)) IN [k \in 1..Len(bad) |-> <<bad[k].v, Octal(bad[k].v)>>]

(* What the harness is told. *)
Told(d) ==
  LET pos == Positions(d.tx) IN
  [text |-> d.tx, ok |-> d.ok, mid |-> d.lx.mid,
   at |-> IF d.ok \/ "where" \in Want THEN [k \in 1..Len(d.lx.toks) |-> pos[d.lx.toks[k].p]] ELSE << >>,
   lexed |-> d.lx.ok, from |-> d.from, to |-> d.to,
   bad |-> IF "where" \in Want /\ d.lx.ok /\ ~d.ok THEN BadNumbers(d.lx.toks) ELSE << >>,
   tree |-> d.tree,
   nums |-> SetToSeq(Numbers(d.tree)),
   json |-> IF d.ok /\ "json" \in Want THEN JsonOf("AST", d.tree) ELSE <<"no">>,
   tape |-> IF d.ok /\ "tape" \in Want THEN F(d.tree) ELSE <<"no">>]

(***************************************************************************)
(* Nothing is skipped: the tokens tile the text, blanks apart.             *)
(***************************************************************************)
Tiles(d) ==
  LET ts == d.lx.toks
      Blanks(i, j) == \A k \in i..(j - 1) : d.tx[k] \in {" ", "\t"}
  IN /\ Blanks(1, ts[1].p)
     /\ \A k \in 1..(Len(ts) - 1) : ts[k].p < ts[k].e /\ Blanks(ts[k].e, ts[k + 1].p)

(* The nodes of a tree in the order of a walk from the root. *)
RECURSIVE Walk(_)
Walk(t) == FoldLeft(LAMBDA a, x : IF x.k = "n" THEN a \o Walk(x.v) ELSE a, <<t>>, t.c)

(* Nodes start in source order, children not before their parent. *)
Ordered(t) == LET w == Walk(t) IN \A k \in 1..(Len(w) - 1) : w[k].p <= w[k + 1].p

(***************************************************************************)
(* Grouping: an operand of an operator is a tighter operator, or the rest   *)
(* of a chain of the same level on the right hand side.                    *)
(***************************************************************************)
LevelOf(n) == IF n \in BinaryNames THEN CHOOSE l \in 1..Len(Levels) : Levels[l].n = n
              ELSE IF n = "ExprUnary" THEN 11 ELSE IF n = "ExprPostfix" THEN 12
              ELSE IF n = "ExprPrimary" THEN 13 ELSE 0
Grouped(t) ==
  LET w == Walk(t) IN
  \A k \in {j \in 1..Len(w) : w[j].n \in BinaryNames} :
    LET x == w[k] IN
    /\ Len(x.c) = 3
    /\ x.c[1].f = "Left" /\ LevelOf(x.c[1].v.n) > LevelOf(x.n)
    /\ x.c[3].f = "Right" /\ LevelOf(x.c[3].v.n) >= LevelOf(x.n)

Sane(d) ==
  /\ d.ok => Tiles(d) /\ Ordered(d.tree) /\ Grouped(d.tree)
  /\ ~d.ok => d.from <= d.to /\ d.to <= Len(d.lx.toks)
  /\ "plain" \in Want => LET r == PlainParse(d.lx) IN r.ok = d.ok /\ r.tree = d.tree

Emit(d) == PrintT("@H " \o ToJson(Told(d)))

(* The same document in another layout, as it should be, has the same JSON. *)
SameLayout(d, d2) == d.ok = d2.ok /\ (d.ok => ToJson(JsonOf("AST", d.tree)) = ToJson(JsonOf("AST", d2.tree)))
EmitBoth(d, d2) == PrintT("@H " \o ToJson(Told(d) @@ [text2 |-> d2.tx]))
=============================================================================
