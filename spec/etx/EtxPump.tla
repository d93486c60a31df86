------------------------------ MODULE EtxPump ------------------------------
(***************************************************************************)
(* Texts  before ++ open^n ++ mid ++ close^n ++ after: deep nesting and long *)
(* sequences.  For small n the specification parses them: whether they are  *)
(* documents must not depend on n, and the size of their tree must grow by  *)
(* the same amount with every step.  The code is then run on large n.       *)
(***************************************************************************)
EXTENDS EtxDoc
LOCAL INSTANCE SequencesExt

CONSTANT From, To       \* the n of the specification; 2 and 3 among them

Pu(b, o, m, c, a) == [before |-> Chars(b), open |-> Chars(o), mid |-> Chars(m), close |-> Chars(c), after |-> Chars(a)]
(* ~ and ^ stand for characters that are not ASCII. *)
Foreign(tx) == [k \in 1..Len(tx) |-> IF tx[k] = "~" THEN "<U+00E9>" ELSE IF tx[k] = "^" THEN "<U+1F600>" ELSE tx[k]]
Pf(b, o, m, c, a) == LET p == Pu(b, o, m, c, a) IN [f \in DOMAIN p |-> Foreign(p[f])]
Pumps == [
  \* nesting
  paren |-> Pu("val x = ", "(", "1", ")", ""),
  parenop |-> Pu("val x = ", "(a + ", "1", " * b)", "\n"),
  list |-> Pu("val x = ", "[a, ", "1", "]", ""),
  map |-> Pu("x = ", "{ a = ", "1", " }", "\n"),
  block |-> Pu("", "b \"l\" {\n", "a = 1", "\n}", "\n"),
  index |-> Pu("val x = ", "a[", "1", "]", ""),
  call |-> Pu("val x = ", "f(a, ", "b", ")", ""),
  member |-> Pu("val x = ", "f(", "b", ").c", ""),
  ifs |-> Pu("val x = ", "if a { ", "1", " }", ""),
  elses |-> Pu("val x = ", "if a { b } else { ", "1", " }", ""),
  ifcond |-> Pu("val x = ", "if (", "a", ") { b }", ""),
  switch |-> Pu("val x = ", "switch a { case b : { ", "1", " } }", ""),
  interp |-> Pu("val x = ", "\"a${ ", "b", " }c\"", ""),
  interpmap |-> Pu("val x = \"${ ", "{ a = ", "1", " }", " }\""),
  directive |-> Pu("val x = ", "'a%{ ", "b", " }c'", ""),
  functype |-> Pu("val x : ", "(a, ", "b", ") -> c", ""),
  ternary |-> Pu("val x = ", "a ? b : ", "c", "", ""),
  \* long sequences
  plus |-> Pu("val x = a", " + b", "", "", ""),
  mixed |-> Pu("val x = a", " * b == c && d", "", "", "\n"),
  shifts |-> Pu("val x = a", " << b", "", "", ""),
  dots |-> Pu("val x = a", ".b", "", "", ""),
  calls |-> Pu("val x = a()", ".b()", "", "", ""),
  curried |-> Pu("val x = a", "(b)", "", "", ""),
  elems |-> Pu("val x = [", "1, ", "2", "", "]"),
  args |-> Pu("val x = f(", "a, ", "b", "", ")"),
  pairs |-> Pu("x = {", "a = 1\n", "", "", "}"),
  items |-> Pu("", "val a = 1\n", "", "", ""),
  attrs |-> Pu("b {\n", "a = 1\n", "", "", "}\n"),
  labels |-> Pu("b ", "a \"c\" ", "{}", "", "\n"),
  comments |-> Pu("a = 1\n", "# c\n", "", "", "b = 1\n"),
  mcomments |-> Pu("a = 1\n", "/* c */\n", "", "", "b = 1\n"),
  blank |-> Pu("a = 1", "\n", "", "", "\nb = 1\n"),
  spaces |-> Pu("a = ", " \t", "1", "", ""),
  params |-> Pu("def f(", "a: b, ", "c", "", ") {}"),
  body |-> Pu("def f() {\n", "val a = 1\n", "", "", "}"),
  enum |-> Pu("type t enum {\n", "a: 1\n", "", "", "}"),
  object |-> Pu("type t object {\n", "a: b\n", "", "", "}"),
  cases |-> Pu("val x = switch a {", "case b: { c }\n", "", "", "}"),
  conds |-> Pu("val x = switch a { case ", "b, ", "c", "", ": { d } }"),
  string |-> Pu("val x = \"", "ab\\n", "", "", "\""),
  interps |-> Pu("val x = \"", "${a}b", "", "", "\""),
  heredoc |-> Pu("x = <<E\n", "line\n", "", "", "E\n"),
  hinterps |-> Pu("x = <<E\n", "a${ b }\n", "", "", "E\n"),
  digits |-> Pu("val x = 1", "23", "", "", ""),
  word |-> Pu("val x = a", "b-c", "", "", ""),
  comment |-> Pu("a = 1 # c", " d", "", "", "\n"),
  mcomment |-> Pu("/*", "a\n", "", "", "*/"),
  allops |-> Pu("val x = a", " || b && c | d ^ e & f == g < h << i + j * k ? l : m", "", "", "\n"),
  allops2 |-> Pu("val x = ", "(a * ", "- b", ") / c - d >> e >= f != g & h ^ i | j && k || !l", "\n"),
  bundle |-> Pu("val x = ", "([{ a = if b { switch c { default: { f(", "- d", ")[0] } } } }, 1])", "\n"),
  unaries |-> Pu("val x = a", " - -b + ~c", "", "", "\n"),
  indexes |-> Pu("val x = a", "[0].b", "", "", "\n"),
  funcs |-> Pu("", "def f(a, b: c): d {\n a\n}\n", "", "", ""),
  funcs2 |-> Pu("", "def f(a: (b) -> c) (d, e.f) {\n\n val g: h = i\n}\n\n", "", "", ""),
  returns |-> Pu("def f() (a, ", "b.c, ", "d", "", ") {}\n"),
  typenames |-> Pu("val x : a", ".b", "", "", " = 1\n"),
  types |-> Pu("", "type t enum {\n a: 1\n}\ntype u object {\n b: (c) -> d\n}\n", "", "", ""),
  decls |-> Pu("", "input a: b\noutput c = 1\nconst d: e = \"f\"\nval g = h\n", "", "", ""),
  blocks |-> Pu("", "b \"l\" m {\n  a = 1\n}\n", "", "", ""),
  after |-> Pu("", "b {\n", "a = 1\n", "}\nc {\n d = 2\n}\n", ""),
  crlf |-> Pu("", "val a = 1\r\n", "", "", "\r\n"),
  tabs |-> Pu("b {\n", "\t\t a\t=\t1\t\n", "", "", "}\n"),
  inbody |-> Pu("def f() {\n", "\n# c\n\n/* d */\nval a = 1\n", "", "", "}\n"),
  inlist |-> Pu("val x = [\n", "\n# c\n1,\n", "", "", "]\n"),
  inmap |-> Pu("x = {\n", "\n# c\n\"k\" = 1,\n\n", "", "", "}\n"),
  inenum |-> Pu("type t enum {\n", "\n# c\n\na: 1\n", "", "", "}\n"),
  inobject |-> Pu("type t object {\n", "# c\n\n\na: b\n", "", "", "}\n"),
  inblock |-> Pu("b {\n", "# c\n/* d */\n\na = 1\n", "", "", "}\n"),
  between |-> Pu("", "# c\n// d\n\n/* e\n f */\nval a = 1\n\n\n", "", "", ""),
  crblank |-> Pu("a = 1", "\r\n", "", "", "b = 1\n"),
  stext |-> Pu("val x = 'a", "b ", "", "", "'"),
  quotes |-> Pu("val x = \"", "'", "", "", "\""),
  escapes |-> Pu("val x = \"", "\\t\\\"\\\\", "", "", "\""),
  unicodes |-> Pu("val x = \"", "\\u00e9\\u0001F600", "", "", "\""),
  markers |-> Pu("val x = \"", "$${%%{$5%", "", "", "\""),
  slines |-> Pu("val x = \"", "a\n", "", "", "\"\nval y = 1\n"),
  lstring |-> Pu("val x = '", "a${ 'b' }c\\n$d", "", "", "'\n"),
  hmarkers |-> Pu("x = <<E\n", "a $${ b } %%{ $ %\n", "", "", "E\n"),
  hblank |-> Pu("x = <<E\n", "\n", "", "", "E\ny = 1\n"),
  hline |-> Pu("x = <<E\n", "ab ", "", "", "\nE\ny = 1\n"),
  hname |-> Pu("x = <<A", "b_", "\n a\nA", "b_", "\ny = 1\n"),
  heredocs |-> Pu("", "x = <<-E\n a\n ${b}\nE\n", "", "", ""),
  hex |-> Pu("val x = 0x", "1f", "", "", ""),
  bin |-> Pu("val x = 0b", "10", "", "", ""),
  oct |-> Pu("val x = 0o", "17", "", "", ""),
  zoct |-> Pu("val x = 0", "71", "", "", ""),
  groups |-> Pu("val x = 1", "_000", "", "", ""),
  fraction |-> Pu("val x = 0.", "25", "", "", ""),
  exponent |-> Pu("val x = 1e", "0", "7", "", ""),
  numbers |-> Pu("val x = [", "1, 0xff, 0b1, 0o7, 017, 1.5, 2e3, 1_0, ", "5", "", "]"),
  \* characters that are not ASCII
  fstring |-> Pf("val x = \"", "a~", "", "", "\" val y = 1\nval z = a"),
  fstrings |-> Pf("val x = [", "'^ ~', ", "a", "", "]"),
  fheredoc |-> Pf("x = <<E\n", "~^${ a }~\n", "", "", "E\n"),
  fhline |-> Pf("x = <<E\n", "^ ", "${a}", "~", "\nE\n"),
  fcomment |-> Pf("# a", "~^", "", "", "\nb = 1\n"),
  fcomments |-> Pf("", "/* ~ */ ", "", "^", "b = 1\n"),
  fmcomment |-> Pf("/* a", "~\n^", "", "", "*/ b = 1\n"),
  flabels |-> Pf("b ", "'~' ", "{}", "", "\n"),
  \* no documents
  nclose |-> Pu("val x = ", "(", "1", "", ""),
  nopen |-> Pu("val x = 1)", ")", "", "", ""),
  nlist |-> Pu("val x = [", "[", "", "", ""),
  nmap |-> Pu("x = {", "{ a = ", "", "", ""),
  nblock |-> Pu("b {", "b {\n", "", "", ""),
  nblock2 |-> Pu("b {}}", "}", "", "", ""),
  nif |-> Pu("val x = if a {", "if a { ", "", "", ""),
  nindex |-> Pu("val x = a[", "a[", "", "", ""),
  ninterp |-> Pu("val x = \"${", "\"${ ", "a", "", ""),
  nstring |-> Pu("val x = \"", "a", "", "", ""),
  nheredoc |-> Pu("x = <<E\n", "EX\n", "", "", ""),
  ncomment |-> Pu("/*", " a", "", "", ""),
  nops |-> Pu("val x = a +", " * b +", "", "", ""),
  nunary |-> Pu("val x = - -", "-", "a", "", ""),
  nternary |-> Pu("val x = a ?", "b ? ", "c", "", ""),
  nat |-> Pu("@", "@", "", "", ""),
  ndot |-> Pu("val x = a.", ".", "", "", ""),
  nelse |-> Pu("val x = if a {} else", " if a {} else ", "", "", ""),
  ncommas |-> Pu("val x = [a,,", ",", "", "", "]"),
  nbackslash |-> Pu("val x = \"\\", "\\\\", "", "", "")
  ]

RECURSIVE Times(_, _)
Times(n, s) == IF n = 0 THEN << >> ELSE Times(n - 1, s) \o s
Text(p, n) == p.before \o Times(n, p.open) \o p.mid \o Times(n, p.close) \o p.after
OneString(tx) == FoldLeft(LAMBDA a, c : a \o c, "", tx)

RECURSIVE Size(_)
Size(t) == FoldLeft(LAMBDA a, x : a + 1 + (IF x.k = "n" THEN Size(x.v) ELSE 0), 1, t.c)

RECURSIVE Deep(_)
Deep(t) == FoldLeft(LAMBDA a, x : LET d == IF x.k = "n" THEN 1 + Deep(x.v) ELSE 0 IN IF d > a THEN d ELSE a, 1, t.c)

(* Formatted, these have the same meaning (declarations and functions        *)
(* without maps and heredocs).                                               *)
Trips == {"paren", "parenop", "list", "index", "call", "member", "ifs", "elses", "ifcond", "switch", "interp", "directive",
  "functype", "ternary", "plus", "mixed", "shifts", "dots", "calls", "curried", "elems", "args", "items", "params",
  "body", "cases", "conds", "string", "interps", "digits", "word", "allops", "allops2", "unaries", "indexes", "funcs", "returns",
  "typenames", "decls", "stext", "quotes", "escapes", "unicodes", "markers", "lstring", "hex", "bin", "oct", "zoct", "groups",
  "fraction", "exponent", "numbers", "fstring", "fstrings"}

VARIABLE which
Init == which \in DOMAIN Pumps
Next == FALSE /\ UNCHANGED which
Check ==
  LET p == Pumps[which]
      ds == [n \in From..To |-> Doc(Text(p, n))]
      Blank == {" ", "\t", "\n", "\r"}
      Tape(n) == FoldLeft(LAMBDA a, s : a + Len(SelectSeq(Chars(s), LAMBDA c : c \notin Blank)), 0, F(ds[n].tree))
      Grow(n) == Size(ds[n + 1].tree) - Size(ds[n].tree)
  IN /\ \A n \in From..To : Assert(ds[n].ok = ds[From].ok /\ Sane(ds[n]), <<"pump", which, n>>)
     /\ ds[From].ok => \A n \in From..(To - 1) : Assert(Grow(n) = Grow(From), <<"grows", which, n>>)
     /\ ds[From].ok => \A n \in From..(To - 1) : Assert(Tape(n + 1) - Tape(n) = Tape(3) - Tape(2), <<"is formatted", which, n>>)
     /\ PrintT("@H " \o ToJson([name |-> which, ok |-> ds[From].ok, grow |-> IF ds[From].ok THEN Grow(From) ELSE 0,
          docs |-> <<Told(ds[2]), Told(ds[3]), Told(ds[4])>>,
          trip |-> which \in Trips, seq |-> ds[From].ok /\ Deep(ds[To].tree) = Deep(ds[To - 1].tree), pump |-> [f \in DOMAIN p |-> OneString(p[f])]]))
=============================================================================
