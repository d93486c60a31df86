------------------------------- MODULE EtxOut -------------------------------
(***************************************************************************)
(* What is made of a tree: its JSON form, its formatted form, and its      *)
(* meaning.                                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, EtxParse
LOCAL INSTANCE SequencesExt

All(n, f) == LET cs == SelectSeq(n.c, LAMBDA x : x.f = f) IN [k \in 1..Len(cs) |-> cs[k].v]
Has(n, f) == \E k \in 1..Len(n.c) : n.c[k].f = f
The(n, f) == n.c[CHOOSE k \in 1..Len(n.c) : n.c[k].f = f].v
Fields(n) == {n.c[k].f : k \in 1..Len(n.c)}

(***************************************************************************)
(* JSON: an object per node, a key per field, a list for what may repeat;  *)
(* every level of the precedence table is an object.  A number is          *)
(* ["#number" |-> literal] here.                                           *)
(***************************************************************************)
JsonKeys == [
  Items |-> "items", EmptyLine |-> "empty_line", Decl |-> "decl", Func |-> "func", Type |-> "type", Block |-> "block",
  Attribute |-> "attribute", Comment |-> "comment", DeclType |-> "decl_type", Label |-> "label", Value |-> "value",
  Ident |-> "ident", Parameters |-> "parameters", Return |-> "return", Parts |-> "parts", Body |-> "body", Expr |-> "expr",
  Enum |-> "enum", Object |-> "object", Name |-> "name", Labels |-> "labels", Key |-> "key", SingleLine |-> "single_line",
  Multiline |-> "multiline", Left |-> "left", Right |-> "right", If |-> "if", Switch |-> "switch", Condition |-> "condition",
  Selector |-> "selector", Cases |-> "cases", Conditions |-> "conditions", Default |-> "default", ConditionOp |-> "condition_op",
  TrueExpr |-> "true_expr", FalseExpr |-> "false_expr", Op |-> "op", Index |-> "index", Post |-> "post",
  SubExpression |-> "sub_expression", Monads |-> "monads", Values |-> "values", Null |-> "null", Bool |-> "bool",
  Number |-> "number", Str |-> "str", Heredoc |-> "heredoc", List |-> "list", Map |-> "map", Fragment |-> "fragment",
  Escaped |-> "escaped", Unicode |-> "unicode", Directive |-> "directive", Text |-> "text", Delimiter |-> "delimiter",
  Fragments |-> "fragments" ]

Repeats(n, f) ==
  \/ f \in {"Items", "Parameters", "Parts", "Body", "Labels", "SingleLine", "Cases", "Conditions", "Monads", "Values",
            "Fragment", "Fragments"}
  \/ n = "Func" /\ f = "Return"

NextKind(t) ==
  CASE t = "Expr" -> "ExprConditional" [] t = "ExprConditional" -> "ExprLogicalOr"
    [] t = "ExprUnary" -> "ExprPostfix" [] t = "ExprPostfix" -> "ExprPrimary"
    [] OTHER -> LET l == CHOOSE l \in 1..Len(Levels) : Levels[l].n = t IN
                IF l = Len(Levels) THEN "ExprUnary" ELSE Levels[l + 1].n

RECURSIVE JsonOf(_, _)
JsonValue(n, x) ==
  IF x.k = "n" THEN JsonOf(x.t, x.v)
  ELSE CASE x.f \in {"Null", "Default", "ConditionOp"} -> TRUE
         [] x.f = "Bool" -> [Value |-> x.v = "true"]
         [] x.f = "Number" -> [x1 \in {"#number"} |-> x.v]
         [] x.f = "Delimiter" -> [x1 \in {"#heredoc"} |-> x.v]
         [] OTHER -> x.v
JsonOf(t, n) ==
  IF n.n # t THEN [x1 \in {JsonKeys[Transparent[t]]} |-> JsonOf(NextKind(t), n)]
  ELSE [key \in {JsonKeys[f] : f \in Fields(n)} |->
          LET cs == SelectSeq(n.c, LAMBDA x : JsonKeys[x.f] = key) IN
          IF Repeats(n.n, cs[1].f) THEN [k \in 1..Len(cs) |-> JsonValue(n, cs[k])]
          ELSE JsonValue(n, cs[1])]

(***************************************************************************)
(* Formatting: the formatted text as a sequence of pieces, without the     *)
(* blanks and line ends between them.                                      *)
(***************************************************************************)
Commas(ts) ==
  FoldLeft(LAMBDA a, k : a \o (IF k > 1 THEN <<",">> ELSE << >>) \o ts[k], << >>, [k \in 1..Len(ts) |-> k])
Flat(ts) == FoldLeft(LAMBDA a, t : a \o t, << >>, ts)

Octal(s) == \* an octal literal with the 0 prefix is written with 0o
  IF Len(s) > 1 /\ Sub(s, 1) = "0" /\ \A k \in 2..Len(s) : Sub(s, k) \in Dec \cup {"_"}
  THEN "0o" \o SubSeq(s, 2, Len(s)) ELSE s

(* A literal, in any number of parentheses: parentheses around it add nothing. *)
RECURSIVE IsLiteral(_)
IsLiteral(n) ==
  /\ n.n = "ExprPrimary"
  /\ Has(n, "Value") \/ (Has(n, "SubExpression") /\ IsLiteral(The(n, "SubExpression")))

RECURSIVE F(_)
Fs(n, f) == LET xs == All(n, f) IN [k \in 1..Len(xs) |-> F(xs[k])]
Maybe(n, f, before) == IF Has(n, f) THEN before \o F(The(n, f)) ELSE << >>
One(n, f) == <<The(n, f)>>
Nodes(n) == LET cs == SelectSeq(n.c, LAMBDA x : x.k = "n") IN [k \in 1..Len(cs) |-> F(cs[k].v)]
Braced(t) == <<"{">> \o t \o <<"}">>

F(n) ==
  CASE n.n = "AST" -> Flat(Fs(n, "Items"))
    [] n.n \in {"RootItem", "BlockItem", "FuncStatement", "ParameterType", "Expr", "TypeEnum", "TypeObject"} -> Flat(Nodes(n))
    [] n.n \in {"Decl", "FuncDecl"} ->
         One(n, "DeclType") \o One(n, "Label") \o Maybe(n, "Type", <<":">>) \o Maybe(n, "Value", <<"=">>)
    [] n.n = "FuncSignature" -> <<"(">> \o Commas(Fs(n, "Parameters")) \o <<")", "->">> \o F(The(n, "Return"))
    [] n.n = "Ident" -> LET ps == All(n, "Parts") IN
         FoldLeft(LAMBDA a, k : a \o (IF k > 1 THEN <<".">> ELSE << >>) \o <<ps[k]>>, << >>, [k \in 1..Len(ps) |-> k])
    [] n.n = "Func" ->
         <<"def">> \o One(n, "Label") \o <<"(">> \o Commas(Fs(n, "Parameters")) \o <<")">>
         \o (LET rs == Fs(n, "Return") IN
             IF Len(rs) > 1 THEN <<"(">> \o Commas(rs) \o <<")">> ELSE Flat(rs))
         \o Braced(Flat(Fs(n, "Body")))
    [] n.n = "Lambda" -> Maybe(n, "Comment", << >>) \o <<"(">> \o Commas(Fs(n, "Parameters")) \o <<")", "=>">> \o F(The(n, "Expr"))
    [] n.n \in {"FuncParameter", "LambdaParameter"} -> One(n, "Label") \o Maybe(n, "Type", <<":">>)
    [] n.n = "Type" -> <<"type">> \o One(n, "Label")
         \o (IF Has(n, "Enum") THEN <<"enum">> \o Braced(F(The(n, "Enum"))) ELSE <<"object">> \o Braced(F(The(n, "Object"))))
    [] n.n = "TypeEnumItem" -> IF Has(n, "Label") THEN One(n, "Label") \o <<":">> \o F(The(n, "Value")) ELSE Flat(Nodes(n))
    [] n.n = "TypeObjectItem" -> IF Has(n, "Label") THEN One(n, "Label") \o <<":">> \o F(The(n, "Type")) ELSE Flat(Nodes(n))
    [] n.n = "Block" -> One(n, "Name") \o Flat([k \in 1..Len(All(n, "Labels")) |-> <<"\"", All(n, "Labels")[k], "\"">>])
         \o Braced(Flat(Fs(n, "Body")))
    [] n.n = "Attribute" -> One(n, "Key") \o Maybe(n, "Value", <<":">>)
    [] n.n = "Comment" -> All(n, "SingleLine") \o All(n, "Multiline")
    [] n.n = "ExprIf" -> <<"if">> \o F(The(n, "Condition")) \o Braced(Maybe(n, "Left", << >>))
         \o (IF Has(n, "Right") THEN <<"else">> \o Braced(F(The(n, "Right"))) ELSE << >>)
    [] n.n = "ExprSwitch" -> <<"switch">> \o F(The(n, "Selector")) \o Braced(Flat(Fs(n, "Cases")))
    [] n.n = "ExprCase" -> (IF Has(n, "Default") THEN <<"default">> ELSE <<"case">> \o Commas(Fs(n, "Conditions")))
         \o <<":">> \o Braced(F(The(n, "Expr")))
    [] n.n = "ExprConditional" -> F(The(n, "Condition")) \o <<"?">> \o F(The(n, "TrueExpr")) \o <<":">> \o F(The(n, "FalseExpr"))
    [] n.n \in BinaryNames -> F(The(n, "Left")) \o One(n, "Op") \o F(The(n, "Right"))
    [] n.n = "ExprUnary" -> One(n, "Op") \o F(The(n, "Right"))
    [] n.n = "ExprPostfix" -> F(The(n, "Value")) \o (IF Has(n, "Index") THEN <<"[">> \o F(The(n, "Index")) \o <<"]">> ELSE << >>)
         \o Maybe(n, "Post", <<".">>)
    [] n.n = "ExprPrimary" ->
         CASE Has(n, "SubExpression") ->
                LET e == The(n, "SubExpression") IN IF IsLiteral(e) THEN F(e) ELSE <<"(">> \o F(e) \o <<")">>
           [] Has(n, "Value") -> F(The(n, "Value"))
           [] OTHER -> F(The(n, "Ident")) \o Flat([k \in 1..Len(All(n, "Monads")) |-> <<"(">> \o F(All(n, "Monads")[k]) \o <<")">>])
                       \o Maybe(n, "Post", <<".">>)
    [] n.n = "ExprInvocationParams" -> Commas(Fs(n, "Values"))
    [] n.n = "Value" ->
         CASE Has(n, "Null") -> <<"null">> [] Has(n, "Bool") -> One(n, "Bool") [] Has(n, "Number") -> <<Octal(The(n, "Number"))>>
           [] OTHER -> Flat(Nodes(n))
    [] n.n = "ValueString" -> <<"\"">> \o Flat(Fs(n, "Fragment")) \o <<"\"">>
    [] n.n = "StringFragment" ->
         CASE Has(n, "Escaped") -> One(n, "Escaped") [] Has(n, "Unicode") -> <<"\\u">> \o One(n, "Unicode")
           [] Has(n, "Expr") -> <<"${">> \o F(The(n, "Expr")) \o <<"}">>
           [] Has(n, "Directive") -> <<"%{">> \o F(The(n, "Directive")) \o <<"}">>
           [] OTHER -> IF The(n, "Text") = "\"" THEN <<"\\\"">> ELSE One(n, "Text")
    [] n.n = "Heredoc" -> LET h == The(n, "Delimiter")        \* << maybe - word line end
             d == SubSeq(h, IF Sub(h, 3) = "-" THEN 4 ELSE 3, Len(h) - 1) IN
         <<h>> \o Flat(Fs(n, "Fragments")) \o <<d>>
    [] n.n = "HeredocFragment" ->
         CASE Has(n, "Expr") -> <<"${">> \o F(The(n, "Expr")) \o <<"}">>
           [] Has(n, "Directive") -> <<"%{">> \o F(The(n, "Directive")) \o <<"}">>
           [] OTHER -> One(n, "Text")
    [] n.n = "ValueList" -> <<"[">> \o Flat(Fs(n, "Items")) \o <<"]">>
    [] n.n = "ListItem" -> IF Has(n, "Value") THEN F(The(n, "Value")) \o <<",">> ELSE Flat(Nodes(n))
    [] n.n = "ValueMap" -> <<"{">> \o Flat(Fs(n, "Items")) \o <<"}">>
    [] n.n = "MapItem" -> IF Has(n, "Key") THEN F(The(n, "Key")) \o <<":">> \o F(The(n, "Value")) \o <<",">> ELSE Flat(Nodes(n))
    [] n.n = "MapKey" -> Flat(Nodes(n))

(***************************************************************************)
(* Meaning: the tree without positions, comments and empty lines, without  *)
(* parentheses around a literal, and with one way to write a quote.        *)
(***************************************************************************)
RECURSIVE M(_)
M(n) ==
  IF n.n = "ExprPrimary" /\ Has(n, "SubExpression") /\ IsLiteral(The(n, "SubExpression")) THEN M(The(n, "SubExpression"))
  ELSE IF n.n = "StringFragment" /\ Has(n, "Text") /\ The(n, "Text") = "\"" THEN <<"StringFragment", <<"Escaped", "\\\"">> >>
  ELSE LET keep == SelectSeq(n.c, LAMBDA x : ~(x.k = "n" /\ Len(x.v.c) = 1 /\ x.v.c[1].f \in {"EmptyLine", "Comment"})) IN
       <<n.n>> \o [k \in 1..Len(keep) |->
         <<keep[k].f, IF keep[k].k = "n" THEN M(keep[k].v)
                      ELSE IF keep[k].f = "Number" THEN NumberMeaning(keep[k].v)
                      ELSE keep[k].v>>]
=============================================================================
