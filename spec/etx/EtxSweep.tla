------------------------------ MODULE EtxSweep ------------------------------
(***************************************************************************)
(* Every symbol at every kind of place: a frame is a text with a hole (`)   *)
(* and every text  frame[c/hole]  is a state, for every ASCII symbol c and   *)
(* some others.  What a lexer rule says of one symbol shows in none else.    *)
(***************************************************************************)
EXTENDS EtxDoc
LOCAL INSTANCE SequencesExt

CONSTANTS Which,       \* names of groups of frames
          Without      \* symbols that are not used

Frames == [
  names |-> <<"val `a = 1", "val a`b = 1", "val a` = 1", "val a-` = 1", "val a-b`c = 1", "`a = 1", "b ` { }", "b a`b { }", "x = a.`", "x = a.b`c",
              "def f(`) { }", "def f`(a) { }", "x = i`", "x = `f", "x = else`", "type t ` { }", "x = tru`", "x = nul`">>,
  gaps |-> <<"val`x = 1", "val x `= 1", "val x =` 1", "val x = 1`", "`", "a = 1\n`b = 2", "a = 1`\nb = 2", "b {`}", "x = [1`]", "x = f(1`2)",
             "x = a `b", "x = a ` b", "x = a `` b", "x = a `= b", "x = a =` b", "x = a &` b", "x = a |` b", "x = a <` b", "x = a >` b", "x = a -` b", "x = `a", "x = a`", "x = a`b">>,
  numbers |-> <<"val x = 0`", "val x = 1`", "val x = `1", "val x = 1`1", "val x = 0`1", "val x = 0x`", "val x = 0x1`1", "val x = 0X`", "val x = 0b1`", "val x = 0B1`1", "val x = 0o1`", "val x = 0O7`1", "val x = 01`", "val x = 1.`", "val x = .`",
                "val x = 1.5`", "val x = 1e`", "val x = 1e`1", "val x = 1E1`", "val x = 1e+`", "val x = 1.5E-1`1", "val x = 1_`", "val x = 1_0`0", "val x = 0_`", "val x = 1234567890123456789`",
                "val x = 0x123456789abcdef0`f">>,
  strings |-> <<"val x = \"`\"", "val x = \"a`b\"", "val x = '`'", "val x = 'a`b'", "val x = \"\\`\"", "val x = \"\\`b\"", "val x = '\\`'", "val x = \"$`\"", "val x = \"$`a}\"", "val x = \"%`\"", "val x = \"%`a}\"", "val x = \"$$`a}\"",
                "val x = \"%%`a}\"", "val x = \"a$`b\"", "val x = \"${a}`\"", "val x = \"`${a}\"", "val x = \"${`}\"", "val x = \"${a`}\"", "val x = \"${a`b}\"", "val x = \"%{`a}\"", "val x = \"${f({`})}\"", "val x = \"a\"`", "val x = `a\"",
                "b \"`\" { }", "b \"a`b\" { }", "val x = \"$`${a}\"", "val x = \"%`%{a}\"">>,
  unicode |-> <<"val x = \"\\u`\"", "val x = \"\\u`234\"", "val x = \"\\u1`34\"", "val x = \"\\u12`4\"", "val x = \"\\u123`\"", "val x = \"\\u`2345678\"", "val x = \"\\u1`345678\"", "val x = \"\\u12`45678\"", "val x = \"\\u123`5678\"",
                "val x = \"\\u1234`678\"", "val x = \"\\u12345`78\"", "val x = \"\\u123456`8\"", "val x = \"\\u1234567`\"", "val x = \"\\u12345678`\"", "val x = '\\u1234`'", "val x = \"\\u1234\\u`234\"">>,
  heredocs |-> <<"x = <<`\na\nE\n", "x = <<E`\na\nE`\n", "x = <<-E`F\na\nE`F\n", "x = <<`E\na\n`E\n", "x = <<E\n`\nE\n", "x = <<E\na`b\nE\n", "x = <<E\n`E\nE\n", "x = <<E\nE`\nE\n", "x = <<E\nE`a\nE\n",
                 "x = <<E\n$`\nE\n", "x = <<E\n$`a}\nE\n", "x = <<E\n%`a}\nE\n", "x = <<E\n$$`a}\nE\n", "x = <<E\n%%`a}\nE\n", "x = <<E\na$`b\nE\n", "x = <<E\n${`}\nE\n", "x = <<E\n${a`b}\nE\n",
                 "x = <<E\n%{`a}\nE\n", "x = <<E\na\nE`", "x = <<E\n`${a}\nE\n", "x = <<E\n$`${a}\nE\n", "x = <<E\n%`%{a}\nE\n", "x = <<E\n$`${a}\nE\n", "x = <`E\na\nE\n">>,
  comments |-> <<"#`", "# a`b\nc", "//`", "// a`b\nc", "/`", "/` a */\nb", "/*`*/", "/* a`b */", "/* a *`", "/* a *`/\nb", "/* a */`", "# a\n`# b\n", "// a\n`b = 1", "a = 1 #`\nb", "a = 1`# c\nb = 2", "x = [\n# a`b\n1]",
                 "b {\n/* a`b */\n}", "def f() {\n# a`b\n}", "/`*\n*/">>
  ]

U(s) == <<s>>
Ascii == Chars("!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~ \t\n\r")
Control == <<"<U+0000>", "<U+0001>", "<U+0007>", "<U+0008>", "<U+000B>", "<U+000C>", "<U+001B>", "<U+007F>">>
Others == <<"<U+0080>", "<U+0085>", "<U+00A0>", "<U+00B2>", "<U+00C9>", "<U+00DF>", "<U+00E9>", "<U+0131>", "<U+017F>", "<U+0301>", "<U+0660>", "<U+0966>", "<U+07FF>", "<U+0800>", "<U+1680>",
            "<U+200B>", "<U+2028>", "<U+2029>", "<U+212A>", "<U+2160>", "<U+3000>", "<U+4E16>", "<U+E000>", "<U+FEFF>", "<U+FF11>", "<U+FF21>", "<U+FFFD>", "<U+FFFF>", "<U+10000>",
            "<U+1F600>", "<U+1D7CE>", "<U+10FFFF>", "<X+80>", "<X+C3>", "<X+E2>", "<X+F0>", "<X+FF>">>
Symbols == {c \in Range(Ascii \o Control \o Others) : c \notin Without}

VARIABLES g, k, c

Fill(f) == FoldLeft(LAMBDA a, s : Append(a, IF s = "`" THEN c ELSE s), << >>, Chars(f))

Init == /\ g \in Which
        /\ k \in 1..Len(Frames[g])
        /\ c = ""
Next == /\ c = ""
        /\ c' \in Symbols
        /\ UNCHANGED <<g, k>>
Spec == Init /\ [][Next]_<<g, k, c>>

Check == c # "" => LET d == Doc(Fill(Frames[g][k])) IN Assert(Sane(d), <<"not sane", d>>) /\ Emit(d)
=============================================================================
