------------------------------- MODULE EtxGen -------------------------------
(***************************************************************************)
(* Documents written by leftmost derivation.                               *)
(*                                                                         *)
(* The state is the text written so far and the stack of what is still to  *)
(* be written: tokens (behind a gap of blanks), glued text, and kinds to   *)
(* expand.  Fuel bounds the expansions; without it the first alternative    *)
(* of a kind, which is its shortest, is taken.  A document that is written  *)
(* may then be damaged.                                                    *)
(***************************************************************************)
EXTENDS EtxDoc, Rnd

CONSTANTS Start,        \* the kind to write
          Fuel,         \* expansions with a choice in one document, at most
          Damage,       \* changes made to a document, at most
          Avoid,        \* constructs not to write
          Layouts       \* 2: every document is written in two layouts

T(s) == [k |-> "t", s |-> Chars(s), x |-> ""]
G(s) == [k |-> "g", s |-> Chars(s), x |-> ""]
U(c) == [k |-> "g", s |-> <<c>>, x |-> ""]
N(n) == [k |-> "n", s |-> << >>, x |-> n]

Ts(ss) == [k \in 1..Len(ss) |-> <<T(ss[k])>>]       \* one alternative per token
Gs(ss) == [k \in 1..Len(ss) |-> <<G(ss[k])>>]
Us(ss) == [k \in 1..Len(ss) |-> <<U(ss[k])>>]
Unless(a, alts) == IF a \in Avoid THEN << >> ELSE alts
Only(a, alts) == IF a \in Avoid THEN alts ELSE << >>

Rep(n, alt) == [k \in 1..n |-> alt]                 \* a weight

Prod == [
  \* layout -----------------------------------------------------------------
  nl0 |-> << << >>, << >>, <<N("nl1")>> >>,                   \* maybe a line end
  nl1 |-> <<<<G("\n")>>, <<G("\n")>>, <<G("\n"), N("nl1")>>, <<G("\n"), G("  ")>>>>
          \o Unless("cr", <<<<G("\r"), G("\n")>>>>),
  comma |-> <<<<T(",")>>>>,

  \* names and comments ---------------------------------------------------------
  id |-> Ts(<<"a", "b1", "foo", "x-y", "snake_case", "Camel", "iffy", "elsewhere", "Z9", "default1", "casex", "n-1-b">>)
         \o Unless("kw", Ts(<<"input", "type", "def", "val", "default", "enum">>)),
  lbl |-> Ts(<<"a", "b", "web", "x-y", "Long_name", "q1">>) \o Unless("kw", Ts(<<"input", "output", "const", "object", "null", "true">>)),
  dotted |-> <<<<N("id")>>, <<N("id")>>, <<N("id"), T("."), N("id")>>, <<N("id"), T("."), N("id"), T("."), N("id")>>>>,
  slc |-> <<<<T("#"), N("ctext"), G("\n")>>, <<T("//"), N("ctext"), G("\n")>>>>,
  ctext |-> << << >>, <<G(" text")>>, <<G(" a = 1 { ( \"")>>, <<G(" // # /* x */")>>, <<G("'"), U("<U+00E9>"), U("<U+4E16>"), G("\t.")>>, <<N("cparts")>>, <<N("cparts")>>, <<N("cparts")>> >>,
  cparts |-> << <<N("cpart")>> >> \o Rep(3, <<N("cpart"), N("cparts")>>),
  cpart |-> Gs(<<" ", "a", "#", "//", "/*", "*/", "*", "/", "\"", "'", "${", "}", "\\", "<<E", "\t", "= 1", "%">>) \o Us(<<"<U+00E9>", "<U+1F600>">>)
           \o Unless("cr", <<<<G("\r")>>>>),
  mlc |-> <<<<T("/* m */")>>, <<T("/**/")>>, <<T("/* // "), U("<U+1F600>"), G(" **/")>>, <<T("/*"), N("mparts"), G("*/")>>, <<T("/*"), N("mparts"), G("*/")>>>>
         \o Unless("mlnl", <<<<T("/* a"), G("\n"), G("\n * b # \" ${"), G("\n*/")>>>>),
  mparts |-> << <<G("m")>> >> \o Rep(3, <<N("mpart"), N("mparts")>>),
  mpart |-> <<<<N("cpart")>>, <<N("cpart")>>, <<G("**")>>, <<G("* /")>>>> \o Unless("mlnl", Rep(2, <<G("\n")>>)),
  comment |-> <<<<N("slc")>>, <<N("slc")>>, <<N("slc"), N("slc")>>, <<N("slc"), N("slc"), N("slc")>>, <<N("mlc"), N("nl0")>>, <<N("mlc"), G("\n")>>>>,

  \* document ---------------------------------------------------------------------
  doc |-> <<<<N("nl0"), N("items")>>>>,
  items |-> << << >> >> \o Rep(7, <<N("item"), N("items")>>),
  item |-> << <<N("attr"), N("nl1")>>, <<N("decl"), N("nl1")>>, <<N("decl"), N("nl1")>>, <<N("func"), N("nl1")>>, <<N("func"), N("nl1")>>,
              <<N("typ"), N("nl1")>>, <<N("typ"), N("nl1")>>, <<N("block"), N("nl1")>>, <<N("block"), N("nl1")>>,
              <<N("comment")>>, <<N("comment")>>, <<N("nl1")>>, <<N("decl")>>, <<N("block")>>, <<N("attr")>>, <<N("typ")>> >>,
  decls |-> << <<N("decl"), G("\n")>> >> \o Rep(2, <<N("ditem"), N("nl1"), N("decls")>>),
  onedecl |-> <<<<N("decl"), G("\n")>>, <<N("func"), G("\n")>>, <<N("func"), G("\n")>>>>,
  ditem |-> <<<<N("decl")>>, <<N("decl")>>, <<N("func")>>>>,
  decl |-> <<<<N("dtype"), N("lbl"), T("="), N("expr")>>, <<N("dtype"), N("lbl")>>, <<N("dtype"), N("lbl"), T(":"), N("ptype")>>,
             <<N("dtype"), N("lbl"), T(":"), N("ptype"), T("="), N("expr")>>, <<N("dtype"), N("lbl"), T("="), N("expr")>>>>,
  dtype |-> Ts(<<"input", "output", "const", "val">>),
  ptype |-> <<<<N("dotted")>>, <<N("dotted")>>, <<N("fsig")>>>>,
  fsig |-> <<<<T("("), T(")"), T("->"), N("dotted")>>, <<T("("), N("ptypes"), T(")"), T("->"), N("ptype")>>>>,
  ptypes |-> <<<<N("ptype")>>, <<N("ptype"), T(","), N("ptypes")>>>>,
  func |-> <<<<T("def"), N("lbl"), T("("), N("params"), T(")"), N("ret"), N("nl0"), T("{"), N("nl0"), N("stmts"), T("}")>>>>,
  params |-> << << >>, <<N("param")>>, <<N("param"), T(","), N("param")>>, <<N("param"), T(","), N("param"), T(","), N("param")>> >>,
  param |-> <<<<N("lbl")>>, <<N("lbl"), T(":"), N("ptype")>>>>,
  ret |-> << << >>, <<N("dotted")>>, <<T("("), N("ptypes"), T(")")>>, <<N("fsig")>>, <<T("("), T(")")>> >>,
  stmts |-> << << >> >> \o Rep(3, <<N("stmt"), N("stmts")>>),
  stmt |-> <<<<N("expr"), N("nl1")>>, <<N("fdecl"), N("nl1")>>, <<N("fdecl"), N("nl1")>>, <<N("fdecl")>>>>
           \o Unless("comment", <<<<N("comment")>>>>) \o Unless("blank", <<<<N("nl1")>>>>),
  fdecl |-> <<<<N("fdtype"), N("lbl"), T("="), N("expr")>>, <<N("fdtype"), N("lbl"), T(":"), N("ptype"), T("="), N("expr")>>,
              <<N("fdtype"), N("lbl")>>, <<N("fdtype"), N("lbl"), T(":"), N("ptype")>>>>,
  fdtype |-> Ts(<<"const", "val">>),
  typ |-> <<<<T("type"), N("lbl"), T("enum"), T("{"), N("nl0"), N("enums"), T("}")>>,
            <<T("type"), N("lbl"), T("object"), T("{"), N("nl0"), N("fields"), T("}")>>>>,
  enums |-> << << >> >> \o Rep(3, <<N("enum"), N("enums")>>),
  enum |-> <<<<N("lbl"), T(":"), N("atom"), N("nl1")>>, <<N("lbl"), T(":"), N("expr"), N("nl1")>>, <<N("comment")>>, <<N("nl1")>>, <<N("lbl"), T(":"), N("num")>>>>,
  fields |-> << << >> >> \o Rep(3, <<N("field"), N("fields")>>),
  field |-> <<<<N("lbl"), T(":"), N("ptype"), N("nl1")>>, <<N("lbl"), T(":"), N("ptype"), N("nl1")>>, <<N("comment")>>, <<N("nl1")>>, <<N("lbl"), T(":"), N("ptype")>>>>,
  block |-> <<<<N("lbl"), N("labels"), T("{"), N("nl0"), N("bitems"), T("}")>>>>,
  labels |-> << << >>, <<N("label")>>, <<N("label"), N("label")>>, <<N("label"), N("label"), N("label")>> >>,
  label |-> <<<<N("lbl")>>, <<T("\""), G("l b"), G("\"")>>, <<T("'"), G("x.y-1"), G("'")>>, <<T("\""), U("<U+00FC>"), G(" {\"")>>>>,
  bitems |-> << << >> >> \o Rep(3, <<N("bitem"), N("bitems")>>),
  bitem |-> <<<<N("attr"), N("nl1")>>, <<N("block"), N("nl1")>>, <<N("attr"), N("nl1")>>, <<N("comment")>>, <<N("nl1")>>, <<N("attr")>>, <<N("block")>>>>,
  attr |-> <<<<N("lbl"), T("="), N("atom")>>, <<N("lbl"), T("="), N("expr")>>, <<N("lbl"), T("="), N("expr")>>, <<N("lbl")>>>>,

  \* comments and empty lines everywhere
  cdoc |-> <<<<N("nl0"), N("citems")>>>>,
  citems |-> << << >> >> \o Rep(9, <<N("citem"), N("citems")>>),
  citem |-> Rep(5, <<N("comment")>>) \o Rep(3, <<N("nl1")>>)
            \o << <<N("attr"), N("nl1")>>, <<N("dtype"), N("lbl"), N("nl1")>>, <<N("attr")>>, <<N("attr"), N("mlc"), N("nl0")>>, <<N("attr"), N("slc")>>,
                  <<T("def"), T("f"), T("("), T(")"), N("nl0"), T("{"), N("nl0"), N("cstmts"), T("}"), N("nl1")>>,
                  <<T("def"), T("g"), T("("), T(")"), N("nl0"), T("{"), N("slc"), N("cstmts"), T("}"), N("nl0")>>,
                  <<T("type"), N("lbl"), T("enum"), T("{"), N("nl0"), N("cenums"), T("}"), N("nl1")>>,
                  <<T("type"), N("lbl"), T("object"), T("{"), N("nl0"), N("cfields"), T("}"), N("nl1")>>,
                  <<N("lbl"), N("labels"), T("{"), N("nl0"), N("cattrs"), T("}"), N("nl0")>>,
                  <<N("lbl"), T("{"), N("comment"), N("cattrs"), T("}"), N("nl0")>>,
                  <<T("val"), N("lbl"), T("="), T("["), N("nl0"), N("celems"), T("]"), N("nl1")>>,
                  <<N("lbl"), T("="), T("{"), N("nl0"), N("cpairs"), T("}"), N("nl1")>> >>,
  cstmts |-> << << >> >> \o Rep(5, <<N("cstmt"), N("cstmts")>>),
  cstmt |-> Rep(3, <<N("comment")>>) \o Rep(2, <<N("nl1")>>) \o <<<<N("fdecl"), N("nl1")>>, <<N("atom"), N("nl1")>>, <<N("fdecl")>>>>,
  cenums |-> << << >> >> \o Rep(5, <<N("cenum"), N("cenums")>>),
  cenum |-> Rep(3, <<N("comment")>>) \o Rep(2, <<N("nl1")>>) \o <<<<N("lbl"), T(":"), N("num"), N("nl1")>>, <<N("lbl"), T(":"), N("num")>>>>,
  cfields |-> << << >> >> \o Rep(5, <<N("cfield"), N("cfields")>>),
  cfield |-> Rep(3, <<N("comment")>>) \o Rep(2, <<N("nl1")>>) \o <<<<N("lbl"), T(":"), N("dotted"), N("nl1")>>, <<N("lbl"), T(":"), N("dotted")>>>>,
  cattrs |-> << << >> >> \o Rep(5, <<N("cattr"), N("cattrs")>>),
  cattr |-> Rep(3, <<N("comment")>>) \o Rep(2, <<N("nl1")>>) \o <<<<N("attr"), N("nl1")>>, <<N("attr")>>, <<N("lbl"), T("{"), N("nl0"), N("cattrs"), T("}"), N("nl0")>>>>,
  celems |-> << <<N("atom")>> >> \o Rep(5, <<N("celem"), N("celems")>>),
  celem |-> Rep(3, <<N("comment")>>) \o <<<<N("atom"), T(","), N("nl0")>>, <<N("atom"), T(","), N("slc")>>, <<N("atom"), N("nl1")>>>>,
  cpairs |-> << << >> >> \o Rep(5, <<N("cpair"), N("cpairs")>>),
  cpair |-> Rep(3, <<N("comment")>>) \o Rep(2, <<N("nl1")>>) \o <<<<N("key"), T("="), N("atom"), T(","), N("nl0")>>, <<N("key"), T("="), N("atom"), N("nl1")>>>>,

  \* functions with values: lambdas are made of them
  lfunc |-> <<<<T("def"), N("lbl"), T("("), N("params"), T(")"), N("ret"), T("{"), N("nl0"), N("lbody"), T("}"), G("\n")>>>>,
  lbody |-> <<<<N("expr"), N("nl1")>>, <<N("comment"), N("expr"), N("nl1")>>, <<N("expr"), N("nl1"), N("comment")>>>>,

  \* expressions --------------------------------------------------------------------
  valx |-> <<<<T("val"), T("x"), T("="), N("expr"), G("\n")>>>>,
  expr |-> <<<<N("atom")>>, <<N("bin")>>, <<N("bin")>>, <<N("un")>>, <<N("bin"), T("?"), N("expr"), T(":"), N("expr")>>,
             <<N("post")>>, <<N("if")>>, <<N("switch")>>, <<N("value")>>>>,
  bin |-> <<<<N("un")>>, <<N("un"), N("binop"), N("un")>>, <<N("un"), N("binop"), N("bin")>>, <<N("un"), N("binop"), N("bin")>>, <<N("un"), N("binop"), N("bin")>>>>,
  binop |-> Ts(<<"||", "&&", "|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "+", "-", "*", "/", "%">>),
  un |-> <<<<N("post")>>, <<N("post")>>, <<T("-"), N("post")>>, <<T("!"), N("post")>>, <<T("~"), N("post")>>, <<T("+"), N("post")>>>>,
  post |-> <<<<N("atom")>>, <<N("atom")>>, <<N("atom")>>, <<N("atom"), T("["), N("expr"), T("]")>>, <<N("call")>>, <<N("call"), T("."), N(IF "nummem" \in Avoid THEN "mem" ELSE "post")>>,
             <<T("("), N("expr"), T(")")>>, <<T("("), N("expr"), T(")")>>, <<T("("), N("expr"), T(")"), T("."), N("mem")>>, <<N("dotted"), T("["), N("expr"), T("]"), T("."), N("mem")>>>>,
  mem |-> <<<<N("dotted")>>, <<N("call")>>, <<N("dotted"), T("["), N("expr"), T("]")>>>>,
  call |-> <<<<N("dotted"), T("("), T(")")>>, <<N("dotted"), T("("), N("args"), T(")")>>, <<N("dotted"), T("("), N("args"), T(")"), T("("), N("args"), T(")")>>>>,
  args |-> <<<<N("expr")>>, <<N("expr"), T(","), N("args")>>>>,
  if |-> <<<<T("if"), N("cond"), T("{"), N("nl0"), N("expr"), N("nl0"), T("}")>>,
           <<T("if"), N("cond"), N("nl0"), T("{"), N("nl0"), N("expr"), N("nl0"), T("}"), N("nl0"), T("else"), T("{"), N("nl0"), N("expr"), N("nl0"), T("}")>>,
           <<T("if"), N("cond"), T("{"), N("nl0"), T("}"), T("else"), T("{"), N("expr"), T("}")>>,
           <<T("if"), N("cond"), T("{"), T("}")>>>>,
  cond |-> <<<<N("call")>>, <<N("bin")>>, <<T("("), N("expr"), T(")")>>, <<N("dotted")>>>>,
  switch |-> <<<<T("switch"), N("cond"), T("{"), N("nl0"), N("cases"), T("}")>>>>,
  cases |-> << << >>, <<N("case"), N("nl0"), N("cases")>>, <<N("case"), N("nl0"), N("cases")>>, <<N("case"), N("nl0"), N("deflt"), N("nl0")>> >>,
  case |-> <<<<T("case"), N("cond"), T(":"), T("{"), N("expr"), T("}")>>,
             <<T("case"), N("conds"), T(":"), N("nl0"), T("{"), N("nl0"), N("expr"), N("nl0"), T("}")>>>>,
  conds |-> <<<<N("cond")>>, <<N("cond"), T(","), N("conds")>>>>,
  deflt |-> <<<<T("default"), T(":"), N("nl0"), T("{"), N("nl0"), N("expr"), N("nl0"), T("}")>>>>,
  atom |-> <<<<N("dotted")>>, <<N("num")>>, <<N("dotted")>>, <<N("num")>>, <<N("str")>>, <<T("true")>>, <<T("false")>>, <<T("null")>>>>,
  num |-> Ts(<<"1", "0", "42", "1.5", ".25", "1e3", "2.5E-2", "6e+1", "0x1F", "0Xa_b", "0b101", "0B1_0", "0o17", "017", "0_7", "1_000",
               "123456789012345678901234567890", "0.1">>) \o Rep(8, <<N("gnum")>>) \o Unless("badnum", Ts(<<"08", "1__0", "0b">>)),
  gnum |-> <<<<T("7"), N("digits")>>, <<T("0"), N("octals")>>, <<T("0x"), N("hexs")>>, <<T("0X"), N("hexs")>>, <<T("0o"), N("octals1")>>, <<T("0O"), N("octals1")>>,
             <<T("0b"), N("bins")>>, <<T("0B"), N("bins")>>, <<T("3"), N("digits"), G("."), N("digits1"), N("expo")>>, <<T("9"), N("digits"), N("expo")>>,
             <<T("."), N("digits1"), N("expo")>>, <<T("0."), N("digits1"), N("expo")>>, <<T("0"), N("expo1")>>>>,
  digits |-> << << >>, <<N("digits1")>>, <<G("_"), N("digits1")>> >>,
  digits1 |-> <<<<G("0")>>, <<G("1"), N("digits")>>, <<G("26"), N("digits")>>, <<G("9007199254740993"), N("digits")>>, <<G("84"), N("digits")>>, <<G("5"), N("digits")>>>>,
  octals |-> << << >>, <<N("octals1")>>, <<G("_"), N("octals1")>> >>,
  octals1 |-> <<<<G("7")>>, <<G("0"), N("octals")>>, <<G("12"), N("octals")>>, <<G("345670123456701"), N("octals")>>, <<G("6"), N("octals")>>>>,
  hexs |-> <<<<G("F")>>, <<G("a0"), N("hexs")>>, <<G("_9"), N("hexs")>>, <<G("Be")>>, <<G("cDe1E5"), N("hexs")>>, <<G("0123456789abcdef")>>, <<G("e")>>>>,
  bins |-> <<<<G("1")>>, <<G("0"), N("bins")>>, <<G("_1"), N("bins")>>, <<G("10011"), N("bins")>>>>,
  expo |-> << << >>, << >>, <<N("expo1")>> >>,
  expo1 |-> <<<<G("e"), N("edigits")>>, <<G("E"), N("edigits")>>, <<G("e+"), N("edigits")>>, <<G("E-"), N("edigits")>>, <<G("e-"), N("edigits")>>, <<G("E+"), N("edigits")>>>>,
  edigits |-> Gs(<<"1", "0", "2", "07", "12", "30", "1_0", "300", "45">>),
  value |-> <<<<N("num")>>, <<N("str")>>, <<N("str")>>, <<N("list")>>, <<N("list")>>>> \o Unless("heredoc", Rep(2, <<N("heredoc")>>)) \o Unless("map", Rep(2, <<N("map")>>)),

  \* numbers, one after the other
  nums |-> <<<<T("val"), T("x"), T("="), N("num"), G("\n")>>, <<T("val"), T("x"), T("="), T("["), N("numlist"), T("]"), G("\n")>>>>,
  numlist |-> <<<<N("num")>>>> \o Rep(9, <<N("num"), T(","), N("numlist")>>),

  \* long lists of everything
  wides |-> <<<<N("wide"), G("\n")>>, <<N("wide"), G("\n"), N("wides")>>>>,
  wide |-> <<<<T("val"), N("lbl"), T(":"), N("wsig")>>,
             <<T("def"), N("lbl"), T("("), N("wparams"), T(")"), N("wret"), N("nl0"), T("{"), N("nl0"), N("stmts"), T("}")>>,
             <<T("def"), N("lbl"), T("("), T(")"), N("wret"), T("{"), T("}")>>,
             <<T("def"), N("lbl"), T("("), T(")"), N("wret"), T("{"), N("stmts"), T("}")>>,
             <<T("val"), N("lbl"), T("="), N("wexpr")>>, <<T("val"), N("lbl"), T("="), N("wexpr")>>, <<T("val"), N("lbl"), T("="), N("wexpr")>>,
             <<T("type"), N("lbl"), T("object"), T("{"), N("nl0"), N("wfields"), T("}")>>,
             <<T("type"), N("lbl"), T("enum"), T("{"), N("nl0"), N("wenums"), T("}")>>,
             <<N("lbl"), N("wlabels"), T("{"), N("nl0"), N("wattrs"), T("}")>>>>,
  wsig |-> <<<<T("("), N("wptypes"), T(")"), T("->"), N("dotted")>>>>,
  wret |-> << << >>, <<T("("), N("wptypes"), T(")")>>, <<T("("), N("wptypes"), T(")")>>, <<N("wsig")>>, <<N("wsig")>> >>,
  wptypes |-> <<<<N("dotted")>>>> \o Rep(12, <<N("wptype"), T(","), N("wptypes")>>),
  wptype |-> Rep(8, <<N("id")>>) \o <<<<N("dotted")>>, <<N("fsig")>>>>,
  wparams |-> <<<<N("param")>>>> \o Rep(12, <<N("param"), T(","), N("wparams")>>),
  wfields |-> << << >> >> \o Rep(12, <<N("field"), N("wfields")>>),
  wenums |-> << << >> >> \o Rep(12, <<N("enum"), N("wenums")>>),
  wlabels |-> << << >> >> \o Rep(8, <<N("label"), N("wlabels")>>),
  wattrs |-> << << >> >> \o Rep(12, <<N("attr"), N("nl1"), N("wattrs")>>),
  wexpr |-> <<<<N("call"), T("("), N("wargs"), T(")")>>, <<T("["), N("welems"), T("]")>>, <<N("wchain")>>, <<N("wdots")>>,
              <<T("switch"), N("cond"), T("{"), T("case"), N("wconds"), T(":"), T("{"), N("atom"), T("}"), T("}")>>,
              <<T("switch"), N("cond"), T("{"), N("nl0"), N("wcases"), T("}")>>,
              <<T("("), N("wchain"), T(")"), T("?"), N("wchain"), T(":"), N("wchain")>>,
              <<T("if"), N("wchain"), T("{"), N("wchain"), T("}"), T("else"), T("{"), N("wchain"), T("}")>>,
              <<T("\""), N("wparts"), G("\"")>>>>
            \o Unless("map", <<<<T("{"), N("wpairs"), T("}")>>>>),
  wargs |-> <<<<N("atom")>>>> \o Rep(12, <<N("atom"), T(","), N("wargs")>>),
  welems |-> << << >> >> \o Rep(12, <<N("atom"), T(","), N("nl0"), N("welems")>>),
  wpairs |-> << << >> >> \o Rep(12, <<N("key"), T("="), N("atom"), T(","), N("wpairs")>>),
  wchain |-> <<<<N("atom")>>>> \o Rep(12, <<N("un"), N("binop"), N("wchain")>>),
  wdots |-> <<<<N("id")>>>> \o Rep(12, <<N("id"), T("."), N("wdots")>>),
  wconds |-> <<<<N("cond")>>>> \o Rep(12, <<N("cond"), T(","), N("wconds")>>),
  wcases |-> << << >> >> \o Rep(8, <<N("case"), N("nl0"), N("wcases")>>),
  wparts |-> << << >> >> \o Rep(12, <<N("dpart"), N("wparts")>>),

  \* texts ------------------------------------------------------------------------------
  texts |-> <<<<N("text"), G("\n")>>, <<N("text"), G("\n"), N("texts")>>>>,
  text |-> <<<<T("val"), T("x"), T("="), N("str")>>, <<T("s"), T("="), N("str"), N("binop"), N("str")>>, <<T("val"), T("f"), T("="), T("f"), T("("), N("str"), T(","), N("str"), T(")")>>>>
            \o Unless("heredoc", Rep(2, <<T("val"), T("h"), T("="), N("heredoc")>>)),
  str |-> <<<<T("\""), N("dparts"), G("\"")>>, <<T("\""), N("dparts"), G("\"")>>, <<T("'"), N("sparts"), G("'")>>>>,
  dparts |-> << << >> >> \o Rep(4, <<N("dpart"), N("dparts")>>),
  sparts |-> << << >> >> \o Rep(4, <<N("spart"), N("sparts")>>),
  dpart |-> <<<<N("part")>>, <<N("part")>>, <<N("part")>>, <<N("part")>>, <<G("'")>>>>,
  spart |-> <<<<N("part")>>, <<N("part")>>, <<N("part")>>, <<N("part")>>, <<G("\"")>>>>,
  part |-> <<<<G("text")>>, <<N("part0")>>, <<N("esc")>>, <<N("interp")>>, <<N("interp")>>, <<N("exotic")>>>>,
  part0 |-> Gs(<<"a", " ", "  b", "$", "%", "$$", "%%", "#", "//", "{", "}", "{}", "$${", "%%{", "$5", "100%", "/*", "0", "\t", "EOF", "if", "$$$${", "\\$"
                 >>) \o Unless("nl", Gs(<<"\n", "x\ny", "\r\n">>)),
  esc |-> Gs(<<"\\n", "\\t", "\\\\", "\\\"", "\\'", "\\a", "\\{", "\\$", "\\%", "\\u00e9", "\\u12345678", "\\u00E9a", "\\uABCDEF", "\\\\u0041", "\\ ",
             "\\u0001F600", "\\u00000041", "\\u0041", "\\uFFFF", "\\u0000", "\\u00e9f", "\\u0001f60", "\\u0010FFFFF">>),
  exotic |-> Us(<<"<U+00E9>", "<U+4E16>", "<U+1F600>", "<U+FEFF>", "<U+0000>", "<U+0301>", "<U+2028>">>) \o Unless("raw", <<<<U("<X+FF>")>>, <<U("<X+C3>")>>>>),
  interp |-> <<<<G("${"), N("expr"), T("}")>>, <<G("${"), N("dotted"), T("}")>>, <<G("%{"), N("expr"), T("}")>>, <<G("${"), N("str"), T("}")>>>>
              \o Unless("map", <<<<G("${"), N("map"), T("}")>>>>),
  heredoc |-> <<<<T("<<EOF"), G("\n"), N("hlines"), G("EOF")>>, <<T("<<-END_1"), G("\n"), N("hlines"), G("END_1")>>,
                <<T("<<E2"), G("\n"), N("hlines"), G("E2")>>, <<T("<<7_z"), G("\n"), N("hlines"), G("7_z")>>>>,
  hlines |-> << << >> >> \o Rep(4, <<N("hparts"), G("\n"), N("hlines")>>),
  hparts |-> << << >> >> \o Rep(3, <<N("hpart"), N("hparts")>>),
  hpart |-> <<<<G("line")>>, <<N("part0")>>, <<N("interp")>>, <<N("interp")>>, <<N("exotic")>>, <<G(" EOF")>>, <<G("EOFX")>>, <<G("END_1x")>>, <<G("\\n")>>, <<G("\"")>>, <<G("'")>>, <<G("\\u12")>>, <<G("E2_")>>>>,
  list |-> <<<<T("["), T("]")>>, <<T("["), N("nl0"), N("elems"), T("]")>>, <<T("["), N("nl0"), N("elems"), T("]")>>>>,
  elems |-> << <<N("expr")>> >> \o Rep(3, <<N("elem"), N("elems")>>),
  elem |-> <<<<N("expr"), T(","), N("nl0")>>, <<N("expr"), T(","), N("nl0")>>, <<N("expr"), T(",")>>, <<N("expr"), N("nl1")>>>>
           \o Unless("comment", <<<<N("comment")>>>>),
  map |-> <<<<T("{"), T("}")>>, <<T("{"), N("nl0"), N("pairs"), T("}")>>, <<T("{"), N("nl0"), N("pairs"), T("}")>>>>,
  pairs |-> << << >> >> \o Rep(3, <<N("pair"), N("pairs")>>),
  pair |-> <<<<N("key"), T("="), N("expr"), T(","), N("nl0")>>, <<N("key"), T("="), N("expr"), N("nl1")>>, <<N("key"), T("="), N("atom"), T(",")>>, <<N("comment")>>, <<N("nl1")>>>>,
  key |-> <<<<N("dotted")>>, <<N("str")>>>>
  ]

VARIABLES text, text2, todo, fuel, hits
vars == <<text, text2, todo, fuel, hits>>

Init == text = << >> /\ text2 = << >> /\ todo = <<N(Start)>> /\ fuel = Fuel /\ hits = 0

OpChars == {"<", ">", "=", "-", "!", "&", "|", "/", "*", "#", "%", "+", "$"}
GapTable == <<"", " ", " ", " ", "  ", "\t", " \t ">>
LastOf(tx) == IF tx = << >> THEN "" ELSE tx[Len(tx)]
(* Must there be a blank between l and c? *)
Clash(l, c) ==
  \/ l \in Word /\ (c \in Word \cup {"-"})
  \/ l \in OpChars /\ c \in OpChars
  \/ l \in {"<", "-"} /\ c \in Word
  \/ l = "." /\ c \in Digits
  \/ l \in Word \cup {")", "]", "\"", "'"} /\ c = "."

(* The blanks before a token with the first symbol c. *)
Gap(tx, c, g) ==
  LET l == LastOf(tx) IN
  IF GapTable[g + 1] = "" /\ Clash(l, c) THEN <<" ">>
  ELSE IF l \in Word \cup {")", "]", "\"", "'", "."} /\ c = "." THEN << >>
  ELSE Chars(GapTable[g + 1])

Draw(n) == Rnd(n, Len(text) + Len(todo))

Top == todo[Len(todo)]
Rest == SubSeq(todo, 1, Len(todo) - 1)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

(* Where layouts are compared it has to be clear what is text and what is not: *)
(* pieces of text are kept apart when they make a marker together.             *)
Apart(l, s) == IF Layouts = 2 /\ l \in {"$", "%"} /\ s # << >> /\ s[1] \in {"{", l} THEN <<"a">> ELSE << >>

Write ==
  /\ todo # << >> /\ Top.k # "n"
  /\ todo' = Rest
  /\ \E g \in {Draw(Len(GapTable))} :
       text' = text \o (IF Top.k = "t" THEN Gap(text, Top.s[1], g) ELSE Apart(LastOf(text), Top.s)) \o Top.s
  /\ IF Layouts = 2
     THEN \E g \in {Draw(Len(GapTable))} :
            text2' = text2 \o (IF Top.k = "t" THEN Gap(text2, Top.s[1], g) ELSE Apart(LastOf(text2), Top.s)) \o Top.s
     ELSE text2' = text2
  /\ UNCHANGED <<fuel, hits>>

Expand ==
  /\ todo # << >> /\ Top.k = "n"
  /\ LET alts == Prod[Top.x] IN
     \E k \in {IF fuel > 0 THEN 1 + Draw(Len(alts)) ELSE 1} :
       /\ todo' = Rest \o Rev(alts[k])
       /\ fuel' = IF Len(alts) > 1 /\ fuel > 0 THEN fuel - 1 ELSE fuel
  /\ UNCHANGED <<text, text2, hits>>

(***************************************************************************)
(* Damage: hits counts down; a symbol or a stretch of them is removed,     *)
(* doubled, replaced, moved, or the end is cut off.                        *)
(***************************************************************************)
Scraps == <<"{", "}", "(", ")", "[", "]", "\"", "'", "$", "${", "%{", "\\", "\\u", "\n", " ", ",", ".", "=", ":", "-", "->", "=>", "?",
            "if", "else", "case", "1", "a", "_", "#", "/*", "*/", "<<A", "@", ";", "`", "val", "null", "0x", "!">>

Hit ==
  LET n == Len(text) IN
  \E op \in {Draw(7)} : \E i \in {1 + Draw(n)} : \E l \in {1 + Draw(3) * Draw(3)} : \E x \in {Pick(Scraps, n)} : \E p \in {Draw(n + 1)} :
    LET j == IF i + l > n + 1 THEN n + 1 ELSE i + l
        a == SubSeq(text, 1, i - 1)
        m == SubSeq(text, i, j - 1)
        z == SubSeq(text, j, n)
    IN text' = CASE op = 0 -> a \o z
                 [] op = 1 -> a \o m \o m \o z
                 [] op = 2 -> a \o Chars(x) \o z
                 [] op = 3 -> a \o Chars(x) \o m \o z
                 [] op = 4 -> a
                 [] op = 5 -> LET r == a \o z IN
                              LET q == IF p > Len(r) THEN Len(r) ELSE p IN SubSeq(r, 1, q) \o m \o SubSeq(r, q + 1, Len(r))
                 [] op = 6 -> z

Again == /\ text' = << >> /\ text2' = << >> /\ todo' = <<N(Start)>>
         /\ \E f \in {Draw(Fuel)} : fuel' = f + 1
         /\ \E h \in {Draw(Damage + 1)} : hits' = h

Finish ==                            \* the document is written: say so or damage it first
  /\ todo = << >>
  /\ IF hits = 0 \/ text = << >> THEN
       /\ LET d == Doc(text) IN
          /\ Assert(Sane(d), <<"not sane", d>>)
          /\ IF Layouts = 2
             THEN LET d2 == Doc(text2) IN Assert(SameLayout(d, d2), <<"layouts differ", text, text2>>) /\ EmitBoth(d, d2)
             ELSE Emit(d)
       /\ Again
     ELSE Hit /\ hits' = hits - 1 /\ UNCHANGED <<todo, text2, fuel>>

Next == Write \/ Expand \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
