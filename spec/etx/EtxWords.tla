------------------------------ MODULE EtxWords ------------------------------
(***************************************************************************)
(* All texts  before ++ w ++ after  for every word w of at most Size pieces  *)
(* of an alphabet (Size + 1 for those in More).  Every text is a state.     *)
(***************************************************************************)
EXTENDS EtxDoc
LOCAL INSTANCE SequencesExt

CONSTANTS Which, More, Size         \* names of alphabets

Al1(b, g, ps, a) == [before |-> b, glue |-> g, pieces |-> ps, after |-> a]
Plain == FALSE
Glued == TRUE

(* glue: no blank between the pieces *)
Alphabets == [
  \* expressions: all levels, and postfix forms
  expr |-> Al1("val x = ", Plain, <<"a", "1", "(", ")", "-", "+", "*", "==", "<", "&&", "||", "?", ":", "!", ".", "[", "]", ",", "|", "<<">>, ""),
  post |-> Al1("val x = a", Glued, <<"a", ".", "(", ")", "[", "]", "1", ",", "\"s\"", "\n">>, ""),
  ops |-> Al1("val x = a ", Plain, <<"|| a", "&& b", "| c", "^ d", "& e", "== f", "!= g", "< h", "<= i", "> j", ">= k", "<< l", ">> m", "+ n", "- o",
                                     "* p", "/ q", "% r", "? s : t">>, ""),
  unary |-> Al1("val x = ", Plain, <<"!", "~", "-", "+", "a", "(", ")", "1", ".", "[", "]">>, ""),
  if |-> Al1("val x = if ", Plain, <<"a", "{", "}", "else", "if", "\n", "1", "?", ":">>, ""),
  if2 |-> Al1("val x = if a {", Plain, <<"a", "{", "}", "else", "if", "\n">>, " }"),
  switch |-> Al1("val x = switch a {", Plain, <<"case", "b", ":", "{", "}", "default", ",", "\n", "1">>, ""),
  case |-> Al1("val x = switch a { case b : { c }", Plain, <<"case", "b", ":", "{", "}", "default", ",", "\n">>, " }"),
  list |-> Al1("val x = [", Plain, <<"a", ",", "]", "\n", "# c\n", "[", "/* m */", "-">>, ""),
  map |-> Al1("val x = {", Plain, <<"a", "=", ",", "}", "\n", "# c\n", "\"k\"", "{", ".">>, ""),
  \* items
  doc |-> Al1("", Plain, <<"val", "a", ":", "=", "1", "{", "}", "(", ")", "->", "def", "type", "enum", "\n", "# c\n", "/* m */", ",", ".", "\"s\"", "input", "object">>, ""),
  decl |-> Al1("const ", Plain, <<"a", ":", "=", "1", "(", ")", "->", "\n", ",", ".", "val", "{", "}", "const">>, ""),
  func |-> Al1("def f(", Plain, <<"a", ",", ")", ":", "b", "(", "->", "{", "}", "\n">>, ""),
  ret |-> Al1("def f()", Plain, <<"a", ",", ")", "(", "->", "{", "}", "\n", ".">>, " {}"),
  body |-> Al1("def f() {", Plain, <<"val", "a", "=", "1", "\n", "# c\n", "}", "const", ":", "(", ")", "{">>, " }"),
  type |-> Al1("type t ", Plain, <<"enum", "object", "{", "}", "a", ":", "1", "\n", "# c\n", "(", ")", "->">>, ""),
  enum |-> Al1("type t enum {", Plain, <<"a", ":", "1", "\n", "# c\n", "/* m */", "}", "\"s\"", ",", "b", "+">>, "}"),
  object |-> Al1("type t object {", Plain, <<"a", ":", "\n", "# c\n", "/* m */", "}", "(", ")", "->", "b", ",", ".">>, "}"),
  block |-> Al1("b ", Plain, <<"a", "\"l\"", "'l'", "{", "}", "\n", "=", "1", "# c\n", "/* m */", "\"\"">>, ""),
  block2 |-> Al1("b {", Plain, <<"a", "{", "}", "\n", "=", "1", "# c\n", "/* m */", "val", "\"l\"">>, "}"),
  \* texts, symbol by symbol
  string |-> Al1("val x = \"", Glued, <<"$", "%", "{", "}", "\"", "'", "\\", "u", "0041", "a", "\n">>, "\"\nval y = 2\n"),
  single |-> Al1("x = '", Glued, <<"$", "%", "{", "}", "\"", "'", "\\", "n", " ", "b">>, "'"),
  interp |-> Al1("val x = \"t${", Glued, <<"{", "}", "\"", "a", " ", "=", "1", ",", "(", ")", "%{", "#", "\n">>, "}u\""),
  unicode |-> Al1("val x = \"\\u", Glued, <<"0", "9", "a", "F", "g", "\"", "\\u", "00", "1234", "0001F600">>, "\""),
  heredoc |-> Al1("h = <<E\n", Glued, <<"E", "a", "\n", "$", "{", "}", "%", " ", "\"", "_", "\\">>, "\nE\n"),
  heredoc2 |-> Al1("h = <<", Glued, <<"-", "E", "\n", " ", "a", "<", "1", "_">>, "\nE\nx = 1\n"),
  heredoc3 |-> Al1("h = <<1_E2\n", Glued, <<"1_E2", "1", "_", "E", "\n", "x", "${1_E2}", " ", ".">>, "\n1_E2\n"),
  heredoc4 |-> Al1("h = [<<1\n", Glued, <<"1", "\n", "<<1\n", ",", "11", "x">>, "\n1\n]\n"),
  \* what can be formatted and parsed again: groups, statements, lists, texts
  tgroup |-> Al1("val x = -(a ", Plain, <<"|| b", "&& b", "| b", "^ b", "& b", "!= b", "<= b", ">> b", "- b", "/ b", "? b : c", ") * (d", ". e [ f ]">>, ") % z"),
  tgroup2 |-> Al1("val x = ", Plain, <<"(", ")", "a", "1", "-", "+", "!", "*", "? b :", "[ c ]">>, ""),
  tbody |-> Al1("def f() (a) -> b {\n", Plain, <<"# c\n", "/* m */", "\n", "val v = 1", "const w : t", "if a { b }", "if a { } else { c }", "if a { b } else { if c { d } }",
                 "switch a { case b , c : { d } default : { e } }", "\"s\"", "( - b )", "g ( a , 1 ) ( )", "val q : ( u ) -> v = w">>, "\n}"),
  tlist |-> Al1("val x = [", Plain, <<"a", ",", "\n", "# c\n", "/* m */", "[", "]", "( 1 )", "if b { c }">>, "]"),
  ttext |-> Al1("val x = \"", Glued, <<"\\n", "\\\"", "'", "$", "%", "${a}", "%{ b }", "$${", "%%{", "\\u0041", "\\u0001F600", "a", " ", "\\\\", "}">>, "\""),
  ttext2 |-> Al1("val x = '", Glued, <<"\\n", "\\'", "\"", "\\\"", "$", "${a}", "$${", "%", "\\u0041", "0", " ", "\\\\">>, "'"),
  \* layout, comments, numbers, names: symbol by symbol
  layout |-> Al1("", Glued, <<"#", "/", "*", "\n", "a", " ", "\"", "=", "1">>, ""),
  cmt |-> Al1("a = 1 /", Glued, <<"*", "/", "\n", " ", "#", "b", "\r">>, ""),
  between |-> Al1("a = 1", Glued, <<"\n", "\r", " ", "# c", "/* m */", "b = 2", "\t", "// d">>, ""),
  number |-> Al1("val x = ", Glued, <<"0", "1", "8", "_", ".", "e", "x", "b", "o", "+", "-", "f">>, ""),
  numberu |-> Al1("val x = ", Glued, <<"0", "1", "9", "_", ".", "E", "X", "B", "O", "+", "-", "F", "7">>, ""),
  name |-> Al1("val ", Glued, <<"a", "-", "_", "1", "Z", ".", " ", "if", "=">>, " = 1"),
  sym |-> Al1("val x = a", Glued, <<"<", ">", "=", "-", "!", "&", "|", "a", " ", "1">>, ""),
  junk |-> Al1("", Glued, <<"@", ";", "`", "\\", "$", "a", "\n", "}", ")", "]", "<U+00E9>", "<X+FF>", "<X+C3>">>, "")
  ]

VARIABLES al, w
Sym(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "<" /\ SubSeq(s, 2, 2) \in {"U", "X"} THEN <<s>> ELSE Chars(s)
Syms == [n \in DOMAIN Alphabets |-> [k \in 1..Len(Alphabets[n].pieces) |-> Sym(Alphabets[n].pieces[k])]]

Text(n, x) ==
  Chars(Alphabets[n].before)
  \o FoldLeft(LAMBDA a, k : a \o (IF k > 1 /\ ~Alphabets[n].glue THEN <<" ">> ELSE << >>) \o Syms[n][x[k]],
              << >>, [k \in 1..Len(x) |-> k])
  \o Chars(Alphabets[n].after)

Init == al \in Which \cup More /\ w = << >>
Next == /\ Len(w) < (IF al \in More THEN Size + 1 ELSE Size)
        /\ \E k \in 1..Len(Syms[al]) : w' = Append(w, k)
        /\ al' = al
Spec == Init /\ [][Next]_<<al, w>>

Check == LET d == Doc(Text(al, w)) IN Assert(Sane(d), <<"not sane", d>>) /\ Emit(d)
=============================================================================
