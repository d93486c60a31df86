------------------------------ MODULE EtxParse ------------------------------
(***************************************************************************)
(* From tokens to the tree: the grammar of the language as data, and what  *)
(* it means for a sequence of tokens to be a document.                     *)
(*                                                                         *)
(* A node is [n |-> kind, p |-> token it starts at, c |-> its content], the *)
(* content is a sequence of [f |-> field, k |-> "s", v |-> text] and        *)
(* [f |-> field, k |-> "n", v |-> node, t |-> declared kind], in source     *)
(* order.  A level of the precedence table that has one operand only is no *)
(* node of its own: the node is that operand.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
LOCAL INSTANCE SequencesExt

L(v)    == [k |-> "lit", v |-> v]                \* a token with this text
K(t)    == [k |-> "tok", t |-> t]                \* a token of this type
C(f, e) == [k |-> "cap", f |-> f, e |-> e]       \* keeps the text of e in field f
S(f, n) == [k |-> "sub", f |-> f, n |-> n]       \* a node of kind n in field f
Q(es)   == [k |-> "seq", es |-> es]
A(es)   == [k |-> "alt", es |-> es]              \* the first that matches
O(e)    == [k |-> "opt", e |-> e]
Z(e)    == [k |-> "star", e |-> e]
Y(e)    == [k |-> "plus", e |-> e]
X(e)    == [k |-> "not", e |-> e]                \* not followed by e

LF == K("LF")
LFs == O(Y(LF))
Sep(e) == Q(<<e, Z(Q(<<L(","), e>>))>>)

(***************************************************************************)
(* The precedence table, loosest first.                                    *)
(***************************************************************************)
Levels == <<
  [n |-> "ExprLogicalOr",      ops |-> <<"OpLogicalOr">>],
  [n |-> "ExprLogicalAnd",     ops |-> <<"OpLogicalAnd">>],
  [n |-> "ExprBitwiseOr",      ops |-> <<"OpBitwiseOr">>],
  [n |-> "ExprBitwiseXor",     ops |-> <<"OpBitwiseXOr">>],
  [n |-> "ExprBitwiseAnd",     ops |-> <<"OpBitwiseAnd">>],
  [n |-> "ExprEquality",       ops |-> <<"OpEqual", "OpNotEqual">>],
  [n |-> "ExprRelational",     ops |-> <<"OpLess", "OpLessOrEqual", "OpMore", "OpMoreOrEqual">>],
  [n |-> "ExprShift",          ops |-> <<"OpBitwiseShiftLeft", "OpBitwiseShiftRight">>],
  [n |-> "ExprAdditive",       ops |-> <<"OpMinus", "OpPlus">>],
  [n |-> "ExprMultiplicative", ops |-> <<"OpDivision", "OpMultiplication", "OpModulo">>] >>

Binary(l) ==
  LET next == IF l = Len(Levels) THEN "ExprUnary" ELSE Levels[l + 1].n
      op == A([k \in 1..Len(Levels[l].ops) |-> K(Levels[l].ops[k])])
  IN Q(<<S("Left", next), O(Q(<<C("Op", op), S("Right", Levels[l].n)>>))>>)

BinaryNames == {Levels[l].n : l \in 1..Len(Levels)}
(* Kinds that stand aside when their content is only this field. *)
Transparent == [n \in BinaryNames \cup {"Expr", "ExprConditional", "ExprUnary", "ExprPostfix"} |->
  CASE n \in BinaryNames \cup {"Expr"} -> "Left" [] n = "ExprConditional" -> "Condition"
    [] n = "ExprUnary" -> "Right" [] n = "ExprPostfix" -> "Value"]

Upto == [n \in 1..20 |-> [k \in 1..n |-> k]]
Items(name, item) == Z(S(name, item))

Grammar ==
  [n \in BinaryNames |-> Binary(CHOOSE l \in 1..Len(Levels) : Levels[l].n = n)] @@
  [ AST |-> Items("Items", "RootItem"),

    RootItem |-> A(<< C("EmptyLine", Y(LF)),
                      Q(<<S("Decl", "Decl"), O(LF)>>),
                      Q(<<S("Func", "Func"), O(LF)>>),
                      Q(<<S("Type", "Type"), O(LF)>>),
                      Q(<<S("Block", "Block"), O(LF)>>),
                      Q(<<S("Attribute", "Attribute"), O(LF)>>),
                      S("Comment", "Comment") >>),

    Decl |-> Q(<< C("DeclType", A(<<L("input"), L("output"), L("const"), L("val")>>)), C("Label", K("Ident")),
                  O(Q(<<L(":"), S("Type", "ParameterType")>>)), O(Q(<<L("="), S("Value", "Expr")>>)) >>),

    ParameterType |-> A(<<S("Ident", "Ident"), S("Func", "FuncSignature")>>),
    FuncSignature |-> Q(<< L("("), O(Sep(S("Parameters", "ParameterType"))), L(")"), K("OpLambdaDef"),
                           S("Return", "ParameterType") >>),
    Ident |-> Q(<< C("Parts", K("Ident")), O(Z(Q(<<L("."), C("Parts", K("Ident"))>>))) >>),

    Func |-> Q(<< L("def"), C("Label", K("Ident")), L("("), O(Sep(S("Parameters", "FuncParameter"))), L(")"),
                  O(A(<< Q(<<X(Q(<<L("("), O(Sep(S("Return", "ParameterType"))), L(")"), K("OpLambdaDef")>>)),
                             L("("), O(Sep(S("Return", "ParameterType"))), L(")")>>),
                         S("Return", "ParameterType") >>)),
                  LFs, L("{"), LFs, Items("Body", "FuncStatement"), L("}") >>),
    FuncParameter |-> Q(<<C("Label", K("Ident")), O(Q(<<L(":"), S("Type", "ParameterType")>>))>>),
    FuncStatement |-> A(<< C("EmptyLine", Y(LF)), S("Comment", "Comment"),
                           Q(<<S("Decl", "FuncDecl"), O(LF)>>), Q(<<S("Expr", "Expr"), O(LF)>>) >>),
    FuncDecl |-> Q(<< C("DeclType", A(<<L("const"), L("val")>>)), C("Label", K("Ident")),
                      O(Q(<<L(":"), S("Type", "ParameterType")>>)), O(Q(<<L("="), S("Value", "Expr")>>)) >>),

    Type |-> Q(<< L("type"), C("Label", K("Ident")),
                  A(<< Q(<<L("enum"), L("{"), LFs, S("Enum", "TypeEnum")>>),
                       Q(<<L("object"), L("{"), LFs, S("Object", "TypeObject")>>) >>), L("}") >>),
    TypeEnum |-> Items("Items", "TypeEnumItem"),
    TypeEnumItem |-> A(<< C("EmptyLine", Y(LF)), S("Comment", "Comment"),
                          Q(<<C("Label", K("Ident")), L(":"), S("Value", "Expr"), O(LF)>>) >>),
    TypeObject |-> Items("Items", "TypeObjectItem"),
    TypeObjectItem |-> A(<< C("EmptyLine", Y(LF)), S("Comment", "Comment"),
                            Q(<<C("Label", K("Ident")), L(":"), S("Type", "ParameterType"), O(LF)>>) >>),

    Block |-> Q(<< C("Name", K("Ident")),
                   Z(A(<< Q(<<K("String"), C("Labels", K("Char")), K("StringEnd")>>), C("Labels", K("Ident")) >>)),
                   L("{"), O(LF), Items("Body", "BlockItem"), L("}") >>),
    BlockItem |-> A(<< C("EmptyLine", Y(LF)), Q(<<S("Block", "Block"), O(LF)>>),
                       Q(<<S("Attribute", "Attribute"), O(LF)>>), S("Comment", "Comment") >>),
    Attribute |-> Q(<< C("Key", K("Ident")), O(Q(<<L("="), S("Value", "Expr")>>)) >>),

    Comment |-> A(<< Y(Q(<<C("SingleLine", K("SingleLineComment")), O(LF)>>)),
                     C("Multiline", Q(<<K("MultilineComment"), O(LF)>>)) >>),

    Expr |-> A(<<S("Left", "ExprConditional"), S("If", "ExprIf"), S("Switch", "ExprSwitch")>>),
    ExprIf |-> Q(<< K("If"), S("Condition", "ExprLogicalOr"), LFs, L("{"), LFs,
                    O(S("Left", "Expr")), LFs, L("}"), LFs,
                    O(Q(<<K("Else"), L("{"), LFs, S("Right", "Expr"), LFs, L("}")>>)) >>),
    ExprSwitch |-> Q(<< K("Switch"), S("Selector", "ExprLogicalOr"), LFs, L("{"), LFs,
                        Z(Q(<<S("Cases", "ExprCase"), LFs>>)), L("}") >>),
    ExprCase |-> Q(<< A(<< Q(<<K("Case"), Sep(S("Conditions", "ExprLogicalOr")), L(":")>>),
                           Q(<<C("Default", L("default")), L(":")>>) >>),
                      LFs, L("{"), LFs, S("Expr", "Expr"), LFs, L("}") >>),

    ExprConditional |-> Q(<< S("Condition", "ExprLogicalOr"),
                             O(Q(<<C("ConditionOp", L("?")), S("TrueExpr", "Expr"), L(":"), S("FalseExpr", "Expr")>>)) >>),
    ExprUnary |-> Q(<< O(C("Op", A(<<K("OpBitwiseNot"), K("OpLogicalNot"), K("OpMinus"), K("OpPlus")>>))),
                       S("Right", "ExprPostfix") >>),
    ExprPostfix |-> Q(<< S("Value", "ExprPrimary"), O(Q(<<L("["), S("Index", "Expr"), L("]")>>)),
                         O(Q(<<L("."), S("Post", "ExprPostfix")>>)) >>),
    ExprPrimary |-> A(<< Q(<<L("("), S("SubExpression", "Expr"), L(")")>>),
                         S("Value", "Value"),
                         Q(<< S("Ident", "Ident"), O(Y(Q(<<L("("), S("Monads", "ExprInvocationParams"), L(")")>>))),
                              O(Q(<<L("."), S("Post", "ExprPostfix")>>)) >>) >>),
    ExprInvocationParams |-> O(Sep(S("Values", "Expr"))),

    Value |-> A(<< C("Null", L("null")), C("Bool", A(<<L("true"), L("false")>>)), C("Number", K("Number")),
                   S("Str", "ValueString"), S("Heredoc", "Heredoc"), S("List", "ValueList"), S("Map", "ValueMap") >>),
    ValueString |-> Q(<<K("String"), Items("Fragment", "StringFragment"), K("StringEnd")>>),
    StringFragment |-> A(<< C("Escaped", K("Escaped")),
                            Q(<<K("Unicode"), C("Unicode", A(<<K("UnicodeLong"), K("UnicodeShort")>>))>>),
                            Q(<<K("Expr"), S("Expr", "Expr"), K("ExprEnd")>>),
                            Q(<<K("Directive"), S("Directive", "Expr"), K("ExprEnd")>>),
                            C("Text", A(<<K("Char"), K("Quote"), K("NonExpr")>>)) >>),
    Heredoc |-> Q(<<C("Delimiter", K("Heredoc")), Items("Fragments", "HeredocFragment"), K("HeredocEnd")>>),
    HeredocFragment |-> A(<< Q(<<K("Expr"), S("Expr", "Expr"), K("ExprEnd")>>),
                             Q(<<K("Directive"), S("Directive", "Expr"), K("ExprEnd")>>),
                             C("Text", Y(A(<<K("Body"), K("EOL"), K("NonExpr")>>))) >>),
    ValueList |-> Q(<<L("["), LFs, Items("Items", "ListItem"), L("]")>>),
    ListItem |-> A(<< C("EmptyLine", Y(LF)), Q(<<S("Value", "Expr"), O(L(",")), O(LF)>>), S("Comment", "Comment") >>),
    ValueMap |-> Q(<<L("{"), LFs, Items("Items", "MapItem"), L("}")>>),
    MapItem |-> A(<< C("EmptyLine", Y(LF)),
                     Q(<<S("Key", "MapKey"), L("="), S("Value", "Expr"), O(L(",")), O(LF)>>), S("Comment", "Comment") >>),
    MapKey |-> A(<<S("Ident", "Ident"), S("Str", "ValueString")>>) ]

(***************************************************************************)
(* Number tokens that are no number are no value.                          *)
(***************************************************************************)
RECURSIVE GoodDigits(_, _, _)
GoodDigits(s, i, D) ==               \* digits of D with single _ between them, from i on
  i <= Len(s) /\ SubSeq(s, i, i) \in D /\
  \/ i = Len(s)
  \/ GoodDigits(s, i + 1, D)
  \/ i + 1 < Len(s) /\ SubSeq(s, i + 1, i + 1) = "_" /\ GoodDigits(s, i + 2, D)

Bin == {"0", "1"}
Oct == Bin \cup {"2", "3", "4", "5", "6", "7"}
Dec == Oct \cup {"8", "9"}
Hex == Dec \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}

(* Behind a base prefix the first separator may come first. *)
Prefixed(s, i, D) ==
  \/ GoodDigits(s, i, D)
  \/ i <= Len(s) /\ SubSeq(s, i, i) = "_" /\ GoodDigits(s, i + 1, D)

Sub(s, i) == IF i <= Len(s) THEN SubSeq(s, i, i) ELSE ""
RECURSIVE Find(_, _, _)
Find(s, i, S1) == IF i > Len(s) \/ Sub(s, i) \in S1 THEN i ELSE Find(s, i + 1, S1)
Part(s, i, j) == SubSeq(s, i, j - 1)

(* [base, int, frac, exp]: texts of digits; base 0 is not a number. *)
NotANumber == [base |-> 0, int |-> "", frac |-> "", exp |-> ""]
NumberMeaning(s) ==
  LET p == Sub(s, 2)
      dot == Find(s, 1, {"."})
      ex == Find(s, 1, {"e", "E"})
      intEnd == IF dot < ex THEN dot ELSE ex
      expAt == IF Sub(s, ex + 1) \in {"+", "-"} THEN ex + 2 ELSE ex + 1
      Ok(a) == GoodDigits(a, 1, Dec)
      int == Part(s, 1, intEnd)
      frac == IF dot < ex THEN Part(s, dot + 1, ex) ELSE ""
      exp == Part(s, expAt, Len(s) + 1)
  IN
  CASE Sub(s, 1) = "0" /\ p \in {"x", "X"} ->
         IF Prefixed(s, 3, Hex) THEN [NotANumber EXCEPT !.base = 16, !.int = Part(s, 3, Len(s) + 1)] ELSE NotANumber
    [] Sub(s, 1) = "0" /\ p \in {"b", "B"} ->
         IF Prefixed(s, 3, Bin) THEN [NotANumber EXCEPT !.base = 2, !.int = Part(s, 3, Len(s) + 1)] ELSE NotANumber
    [] Sub(s, 1) = "0" /\ p \in {"o", "O"} ->
         IF Prefixed(s, 3, Oct) THEN [NotANumber EXCEPT !.base = 8, !.int = Part(s, 3, Len(s) + 1)] ELSE NotANumber
    [] Sub(s, 1) = "0" /\ Len(s) > 1 /\ dot > Len(s) /\ ex > Len(s) ->
         IF Prefixed(s, 2, Oct) THEN [NotANumber EXCEPT !.base = 8, !.int = Part(s, 2, Len(s) + 1)] ELSE NotANumber
    [] OTHER ->
         IF /\ int = "" \/ Ok(int)
            /\ int # "" \/ frac # ""
            /\ (dot < ex) => (frac = "" \/ Ok(frac))
            /\ (ex <= Len(s)) => Ok(exp)
         THEN [base |-> 10, int |-> int, frac |-> frac,
               exp |-> (IF Sub(s, ex + 1) = "-" THEN "-" ELSE "") \o exp]
         ELSE NotANumber
IsNumber(s) == NumberMeaning(s).base # 0

(***************************************************************************)
(* The tokens that something can start with, by type (t) and by text (v);  *)
(* whether it can be empty (e).                                            *)
(***************************************************************************)
RECURSIVE First(_)
First(x) ==
  CASE x.k = "tok" -> [t |-> {x.t}, v |-> {}, e |-> FALSE]
    [] x.k = "lit" -> [t |-> {}, v |-> {x.v}, e |-> FALSE]
    [] x.k = "sub" -> First(Grammar[x.n])
    [] x.k = "cap" -> First(x.e)
    [] x.k \in {"opt", "star"} -> [First(x.e) EXCEPT !.e = TRUE]
    [] x.k = "plus" -> First(x.e)
    [] x.k = "not" -> [t |-> {}, v |-> {}, e |-> TRUE]
    [] x.k = "seq" -> FoldLeft(LAMBDA a, y : IF ~a.e THEN a
                                             ELSE LET f == First(y) IN [t |-> a.t \cup f.t, v |-> a.v \cup f.v, e |-> f.e],
                               [t |-> {}, v |-> {}, e |-> TRUE], x.es)
    [] x.k = "alt" -> FoldLeft(LAMBDA a, y : LET f == First(y) IN [t |-> a.t \cup f.t, v |-> a.v \cup f.v, e |-> a.e \/ f.e],
                               [t |-> {}, v |-> {}, e |-> FALSE], x.es)

(* The grammar with, at every choice, what each branch can start with. *)
RECURSIVE Mark(_)
Mark(x) ==
  CASE x.k = "cap" -> [x EXCEPT !.e = Mark(@)]
    [] x.k = "seq" -> [x EXCEPT !.es = [j \in 1..Len(@) |-> Mark(@[j])]]
    [] x.k = "alt" -> [k |-> "alt", es |-> [j \in 1..Len(x.es) |-> Mark(x.es[j])], fs |-> [j \in 1..Len(x.es) |-> First(x.es[j])]]
    [] x.k \in {"opt", "star", "plus"} -> [k |-> x.k, e |-> Mark(x.e), f |-> First(x.e)]
    [] x.k = "not" -> [x EXCEPT !.e = Mark(@)]
    [] OTHER -> x
Marked == [n \in DOMAIN Grammar |-> Mark(Grammar[n])]
MayStart(f, tok) == f.e \/ tok.t \in f.t \/ tok.v \in f.v

OpLevel == [t \in UNION {{Levels[l].ops[k] : k \in 1..Len(Levels[l].ops)} : l \in 1..Len(Levels)} |->
              CHOOSE l \in 1..Len(Levels) : \E k \in 1..Len(Levels[l].ops) : Levels[l].ops[k] = t]
LevelNo == [n \in BinaryNames |-> CHOOSE l \in 1..Len(Levels) : Levels[l].n = n]

(***************************************************************************)
(* Meaning.  P(tk, e, i) is what e makes of the tokens tk from i on:       *)
(* o is "y" (it matches, up to i), "n" (it does not; i is how far it got)  *)
(* or "x" (the whole text is given up: a choice was tried for more than    *)
(* Lookahead tokens in vain).  Branches that cannot start with the token   *)
(* at hand fail there and are not tried.  MCParse checks that this, and     *)
(* the loop over the levels, are the grammar's meaning (PlainP below).      *)
(***************************************************************************)
Lookahead == 50

Yes(i, c, m) == [o |-> "y", i |-> i, c |-> c, m |-> m]
No(i, m) == [o |-> "n", i |-> i, c |-> << >>, m |-> m]
GiveUp(i, m) == [o |-> "x", i |-> i, c |-> << >>, m |-> m]
Far(r, i) == r.o = "x" \/ r.i > i + Lookahead      \* of a failed attempt from i
Max2(a, b) == IF a > b THEN a ELSE b

Texts(tk, i, j) == FoldLeft(LAMBDA a, t : a \o t.v, "", SubSeq(tk, i, j - 1))   \* of the tokens i .. j-1

Wrap(n, i, r) ==
  IF r.o # "y" THEN [o |-> r.o, i |-> r.i, d |-> << >>, m |-> r.m]
  ELSE [o |-> "y", i |-> r.i, m |-> r.m,
        d |-> IF n \in DOMAIN Transparent /\ Len(r.c) = 1 /\ r.c[1].f = Transparent[n]
              THEN r.c[1].v ELSE [n |-> n, p |-> i, c |-> r.c]]

RECURSIVE P(_, _, _), PLoop(_, _, _, _, _), Tower(_, _, _, _, _), Node(_, _, _)

Node(tk, n, i) ==
  IF n \in BinaryNames
  THEN LET u == Node(tk, "ExprUnary", i) IN
       IF u.o # "y" THEN u
       ELSE Tower(tk, i, LevelNo[n], Len(Levels), [o |-> "y", i |-> u.i, d |-> u.d, n |-> "ExprUnary", m |-> Max2(u.m, u.i)])
  ELSE Wrap(n, i, P(tk, Marked[n], i))

(* The levels down..up behind the operand a that starts at i0. *)
Tower(tk, i0, up, down, a) ==
  LET t == tk[a.i].t
      l == IF t \in DOMAIN OpLevel THEN OpLevel[t] ELSE 0
  IN IF l < up \/ l > down THEN [o |-> "y", i |-> a.i, d |-> a.d, m |-> a.m]
     ELSE LET r == Node(tk, Levels[l].n, a.i + 1) IN
          IF r.o = "y"
          THEN Tower(tk, i0, up, l - 1,
                     [o |-> "y", i |-> r.i, n |-> Levels[l].n, m |-> Max2(Max2(a.m, r.m), r.i),
                      d |-> [n |-> Levels[l].n, p |-> i0,
                             c |-> << [f |-> "Left", k |-> "n", v |-> a.d, t |-> IF l = Len(Levels) THEN "ExprUnary" ELSE Levels[l + 1].n],
                                      [f |-> "Op", k |-> "s", v |-> tk[a.i].v],
                                      [f |-> "Right", k |-> "n", v |-> r.d, t |-> Levels[l].n] >>]])
          ELSE IF Far(r, a.i) THEN [o |-> "x", i |-> r.i, d |-> << >>, m |-> Max2(a.m, r.m)]
          ELSE [o |-> "y", i |-> a.i, d |-> a.d, m |-> Max2(a.m, r.m)]

P(tk, e, i) ==
  CASE e.k = "tok" -> IF tk[i].t = e.t THEN Yes(i + 1, << >>, i) ELSE No(i, i)
    [] e.k = "lit" -> IF tk[i].v = e.v /\ tk[i].t # "EOF" THEN Yes(i + 1, << >>, i) ELSE No(i, i)
    [] e.k = "sub" -> LET r == Node(tk, e.n, i) IN
                      IF r.o = "y" THEN Yes(r.i, <<[f |-> e.f, k |-> "n", v |-> r.d, t |-> e.n]>>, r.m)
                      ELSE [o |-> r.o, i |-> r.i, c |-> << >>, m |-> r.m]
    [] e.k = "cap" -> LET r == P(tk, e.e, i) IN
                      IF r.o # "y" THEN r
                      ELSE IF e.f = "Number" /\ ~IsNumber(tk[i].v) THEN No(r.i, r.i)
                      ELSE Yes(r.i, <<[f |-> e.f, k |-> "s", v |-> Texts(tk, i, r.i)]>>, r.m)
    [] e.k = "seq" -> FoldLeft(LAMBDA a, x :
                        IF a.o # "y" THEN a
                        ELSE LET r == P(tk, x, a.i)
                                 m == Max2(a.m, r.m)
                             IN IF r.o # "y" THEN [r EXCEPT !.m = m] ELSE Yes(r.i, a.c \o r.c, m),
                        Yes(i, << >>, i), e.es)
    [] e.k = "alt" -> FoldLeft(LAMBDA a, x :
                        IF a.o # "n" \/ ~MayStart(e.fs[x], tk[i]) THEN a
                        ELSE LET r == P(tk, e.es[x], i)
                                 m == Max2(a.m, r.m)
                             IN IF r.o = "y" THEN [r EXCEPT !.m = m]
                                ELSE IF Far(r, i) THEN GiveUp(r.i, m) ELSE [a EXCEPT !.m = m],
                        No(i, i), Upto[Len(e.es)])
    [] e.k = "opt" -> IF ~MayStart(e.f, tk[i]) THEN Yes(i, << >>, i)
                      ELSE LET r == P(tk, e.e, i) IN
                      IF r.o = "y" THEN r ELSE IF Far(r, i) THEN GiveUp(r.i, r.m) ELSE Yes(i, << >>, r.m)
    [] e.k = "star" -> PLoop(tk, e, i, << >>, i)
    [] e.k = "plus" -> IF ~MayStart(e.f, tk[i]) THEN No(i, i)
                       ELSE LET r == P(tk, e.e, i) IN
                       IF r.o = "y" THEN PLoop(tk, e, r.i, r.c, r.m)
                       ELSE IF Far(r, i) THEN GiveUp(r.i, r.m) ELSE No(i, r.m)
    [] e.k = "not" -> LET r == P(tk, e.e, i) IN IF r.o = "y" THEN No(i, r.m) ELSE Yes(i, << >>, r.m)

PLoop(tk, e, i, c, m0) ==
  IF ~MayStart(e.f, tk[i]) THEN Yes(i, c, Max2(m0, i))
  ELSE LET r == P(tk, e.e, i)
           m == Max2(m0, r.m)
       IN
  IF r.o = "y" THEN (IF r.i = i THEN Yes(i, c, m) ELSE PLoop(tk, e, r.i, c \o r.c, m))
  ELSE IF Far(r, i) THEN GiveUp(r.i, m) ELSE Yes(i, c, m)

(* The same, by the grammar alone. *)
RECURSIVE PlainP(_, _, _), PlainLoop(_, _, _, _)

PlainNode(tk, n, i) == Wrap(n, i, PlainP(tk, Grammar[n], i))

PlainP(tk, e, i) ==
  CASE e.k = "tok" -> IF tk[i].t = e.t THEN Yes(i + 1, << >>, 0) ELSE No(i, 0)
    [] e.k = "lit" -> IF tk[i].v = e.v /\ tk[i].t # "EOF" THEN Yes(i + 1, << >>, 0) ELSE No(i, 0)
    [] e.k = "sub" -> LET r == PlainNode(tk, e.n, i) IN
                      IF r.o = "y" THEN Yes(r.i, <<[f |-> e.f, k |-> "n", v |-> r.d, t |-> e.n]>>, 0)
                      ELSE [o |-> r.o, i |-> r.i, c |-> << >>, m |-> 0]
    [] e.k = "cap" -> LET r == PlainP(tk, e.e, i) IN
                      IF r.o # "y" THEN r
                      ELSE IF e.f = "Number" /\ ~IsNumber(tk[i].v) THEN No(r.i, 0)
                      ELSE Yes(r.i, <<[f |-> e.f, k |-> "s", v |-> Texts(tk, i, r.i)]>>, 0)
    [] e.k = "seq" -> FoldLeft(LAMBDA a, x :
                        IF a.o # "y" THEN a
                        ELSE LET r == PlainP(tk, x, a.i) IN IF r.o # "y" THEN r ELSE Yes(r.i, a.c \o r.c, 0),
                        Yes(i, << >>, 0), e.es)
    [] e.k = "alt" -> FoldLeft(LAMBDA a, x :
                        IF a.o # "n" THEN a
                        ELSE LET r == PlainP(tk, x, i) IN
                             IF r.o = "y" THEN r ELSE IF Far(r, i) THEN GiveUp(r.i, 0) ELSE a,
                        No(i, 0), e.es)
    [] e.k = "opt" -> LET r == PlainP(tk, e.e, i) IN
                      IF r.o = "y" THEN r ELSE IF Far(r, i) THEN GiveUp(r.i, 0) ELSE Yes(i, << >>, 0)
    [] e.k = "star" -> PlainLoop(tk, e.e, i, << >>)
    [] e.k = "plus" -> LET r == PlainP(tk, e.e, i) IN
                       IF r.o = "y" THEN PlainLoop(tk, e.e, r.i, r.c)
                       ELSE IF Far(r, i) THEN GiveUp(r.i, 0) ELSE No(i, 0)
    [] e.k = "not" -> IF PlainP(tk, e.e, i).o = "y" THEN No(i, 0) ELSE Yes(i, << >>, 0)

PlainLoop(tk, e, i, c) ==
  LET r == PlainP(tk, e, i) IN
  IF r.o = "y" THEN (IF r.i = i THEN Yes(i, c, 0) ELSE PlainLoop(tk, e, r.i, c \o r.c))
  ELSE IF Far(r, i) THEN GiveUp(r.i, 0) ELSE Yes(i, c, 0)

NoTree == [n |-> "none", p |-> 0, c |-> << >>]

(* Where the first item starts that is no item. *)
RECURSIVE Stuck(_, _)
Stuck(tk, i) == LET r == Node(tk, "RootItem", i) IN IF r.o = "y" /\ r.i > i THEN Stuck(tk, r.i) ELSE i

(***************************************************************************)
(* The document, or nothing: all tokens have to be used.  What is no       *)
(* document fails somewhere from its first bad item to the furthest token  *)
(* that was looked at; if it is no sequence of tokens, where that ends.     *)
(***************************************************************************)
Parse(lx) ==
  LET none == [ok |-> FALSE, tree |-> NoTree] IN
  IF ~lx.ok THEN none @@ [from |-> Len(lx.toks), to |-> Len(lx.toks)]
  ELSE LET r == Node(lx.toks, "AST", 1) IN
       IF r.o = "y" /\ lx.toks[r.i].t = "EOF" THEN [ok |-> TRUE, tree |-> r.d, from |-> 0, to |-> 0]
       ELSE none @@ [from |-> Stuck(lx.toks, 1), to |-> Max2(r.m, r.i)]

PlainParse(lx) ==
  IF ~lx.ok THEN [ok |-> FALSE, tree |-> NoTree]
  ELSE LET r == PlainNode(lx.toks, "AST", 1) IN
       IF r.o = "y" /\ lx.toks[r.i].t = "EOF" THEN [ok |-> TRUE, tree |-> r.d]
       ELSE [ok |-> FALSE, tree |-> NoTree]
=============================================================================
