------------------------------- MODULE EtxLex -------------------------------
(***************************************************************************)
(* From text to tokens.                                                    *)
(*                                                                         *)
(* A text is a sequence of symbols.  A symbol is a string of one           *)
(* character, or "<U+XXXX>" for a character that is not ASCII, or          *)
(* "<X+XX>" for a byte that is not part of any character.                  *)
(*                                                                         *)
(* The lexer has a stack of modes: Root for code, String and Heredoc for   *)
(* texts, Expr for the code of an interpolation in one of them, Block for  *)
(* braces nested in such code, Unicode behind \u.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
LOCAL INSTANCE SequencesExt

Chars(s) == [k \in 1..Len(s) |-> SubSeq(s, k, k)]
Flag(c, s) == \E k \in 1..Len(s) : SubSeq(s, k, k) = c

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m",
          "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M",
          "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Alpha == Lower \cup Upper
Word == Alpha \cup Digits \cup {"_"}
HexDigits == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
NumDigits == Digits \cup {"_"}

Width(c) ==                          \* bytes of a symbol in UTF-8
  IF Len(c) = 1 \/ SubSeq(c, 2, 2) = "X" THEN 1
  ELSE IF Len(c) >= 9 THEN 4
  ELSE IF SubSeq(c, 4, 5) = "00" /\ SubSeq(c, 6, 6) \in {"0", "1", "2", "3", "4", "5", "6", "7"} THEN 1
  ELSE IF SubSeq(c, 4, 5) \in {"00", "01", "02", "03", "04", "05", "06", "07"} THEN 2
  ELSE 3

At(tx, i) == IF i <= Len(tx) THEN tx[i] ELSE ""
Two(tx, i) == At(tx, i) \o At(tx, i + 1)

Join(tx, i, j) ==                    \* the symbols i .. j-1 as one string
  FoldLeft(LAMBDA a, c : a \o c, "", SubSeq(tx, i, j - 1))

(* The first symbol from i on that is not (that is) in S, or the end. *)
SkipIn(tx, i, S) ==
  CHOOSE j \in i..(Len(tx) + 1) :
    (j = Len(tx) + 1 \/ tx[j] \notin S) /\ \A k \in i..(j - 1) : tx[k] \in S
SkipTo(tx, i, S) ==
  CHOOSE j \in i..(Len(tx) + 1) :
    (j = Len(tx) + 1 \/ tx[j] \in S) /\ \A k \in i..(j - 1) : tx[k] \notin S

(* Is the word w at i, not followed by more of a word? *)
IsWord(tx, i, w) ==
  /\ i + Len(w) - 1 <= Len(tx)
  /\ \A k \in 1..Len(w) : tx[i + k - 1] = SubSeq(w, k, k)
  /\ At(tx, i + Len(w)) \notin Word

(***************************************************************************)
(* Code.  Every operator below gives the index after the token, or 0.      *)
(***************************************************************************)
RECURSIVE EndOfIdent(_, _)
EndOfIdent(tx, i) ==                 \* letters, digits, _ ; - between words
  LET j == SkipIn(tx, i, Word) IN
  IF At(tx, j) = "-" /\ At(tx, j + 1) \in Word THEN EndOfIdent(tx, j + 1) ELSE j

Ident(tx, i) == IF At(tx, i) \in Alpha THEN EndOfIdent(tx, i) ELSE 0

Exponent(tx, i) ==                   \* the end of the exponent at i, or i
  IF At(tx, i) \in {"e", "E"} THEN
    LET j == IF At(tx, i + 1) \in {"+", "-"} THEN i + 2 ELSE i + 1
        e == SkipIn(tx, j, NumDigits)
    IN IF e > j THEN e ELSE i
  ELSE i

Number(tx, i) ==
  LET c == At(tx, i)
      n == At(tx, i + 1)
      d == SkipIn(tx, i, NumDigits)
      f == IF At(tx, d) = "." THEN SkipIn(tx, d + 1, NumDigits) ELSE d
  IN
  IF c = "0" /\ n \in {"x", "X"} /\ At(tx, i + 2) \in HexDigits \cup {"_"}
    THEN SkipIn(tx, i + 2, HexDigits \cup {"_"})
  ELSE IF c = "0" /\ n \in {"b", "B"} THEN SkipIn(tx, i + 2, {"0", "1", "_"})
  ELSE IF c = "0" /\ n \in {"o", "O"} THEN SkipIn(tx, i + 2, {"0", "1", "2", "3", "4", "5", "6", "7", "_"})
  ELSE IF f > d + 1 THEN Exponent(tx, f)
  ELSE IF d > i THEN Exponent(tx, d)
  ELSE 0

EndOfComment(tx, i) ==               \* behind the next star slash, or 0
  IF \E j \in i..(Len(tx) - 1) : Two(tx, j) = "*/"
  THEN (CHOOSE j \in i..(Len(tx) - 1) : Two(tx, j) = "*/" /\ \A k \in i..(j - 1) : Two(tx, k) # "*/") + 2
  ELSE 0

Heredoc(tx, i) ==
  IF Two(tx, i) = "<<" THEN
    LET w == IF At(tx, i + 2) = "-" THEN i + 3 ELSE i + 2
        e == SkipIn(tx, w, Word)
    IN IF e > w /\ At(tx, e) = "\n" THEN e + 1 ELSE 0
  ELSE 0

Delimiter(tx, i, j) == Join(tx, IF At(tx, i + 2) = "-" THEN i + 3 ELSE i + 2, j - 1)

TwoCharOps == [p \in {"=>", "->", "==", "!=", "&&", "||", "<<", ">>", "<=", ">="} |->
  CASE p = "=>" -> "OpLambda" [] p = "->" -> "OpLambdaDef" [] p = "==" -> "OpEqual"
    [] p = "!=" -> "OpNotEqual" [] p = "&&" -> "OpLogicalAnd" [] p = "||" -> "OpLogicalOr"
    [] p = "<<" -> "OpBitwiseShiftLeft" [] p = ">>" -> "OpBitwiseShiftRight"
    [] p = "<=" -> "OpLessOrEqual" [] p = ">=" -> "OpMoreOrEqual"]

OneCharOps == [p \in {"(", ")", "{", "}", ",", "!", "~", "&", "|", "^", "*", "/", "%", "+", "-",
                      "<", ">", "=", "?", ":", "[", "]", ".", "\n", "\r"} |->
  CASE p = "(" -> "OpLParen" [] p = ")" -> "OpRParen" [] p = "{" -> "BlockStart" [] p = "}" -> "BlockEnd"
    [] p = "," -> "OpComma" [] p = "!" -> "OpLogicalNot" [] p = "~" -> "OpBitwiseNot"
    [] p = "&" -> "OpBitwiseAnd" [] p = "|" -> "OpBitwiseOr" [] p = "^" -> "OpBitwiseXOr"
    [] p = "*" -> "OpMultiplication" [] p = "/" -> "OpDivision" [] p = "%" -> "OpModulo"
    [] p = "+" -> "OpPlus" [] p = "-" -> "OpMinus" [] p = "<" -> "OpLess" [] p = ">" -> "OpMore"
    [] p = "=" -> "OpAssign" [] p = "?" -> "OpCondition" [] p = ":" -> "OpColon"
    [] p = "[" -> "OpLBracket" [] p = "]" -> "OpRBracket" [] p = "." -> "Dot"
    [] p \in {"\n", "\r"} -> "LF"]

(* A token: type, end, and what happens to the stack of modes. *)
Tok(t, j) == [t |-> t, j |-> j, a |-> "stay", m |-> "", q |-> ""]
Push(t, j, m, q) == [t |-> t, j |-> j, a |-> "push", m |-> m, q |-> q]
PopTok(t, j) == [t |-> t, j |-> j, a |-> "pop", m |-> "", q |-> ""]
NoTok == Tok("", 0)

Keywords == [if |-> "If", else |-> "Else", switch |-> "Switch", case |-> "Case"]

Code(tx, i) ==
  LET c == tx[i]
      two == Two(tx, i)
      mc == EndOfComment(tx, i + 2)
      hd == Heredoc(tx, i)
      nb == Number(tx, i)
      kw == {k \in DOMAIN Keywords : IsWord(tx, i, k)}
  IN
  CASE c \in Alpha ->
         IF kw # {} THEN LET k == CHOOSE k \in kw : TRUE IN Tok(Keywords[k], i + Len(k))
         ELSE Tok("Ident", EndOfIdent(tx, i))
    [] c \in {"\t", " "} -> Tok("whitespace", SkipIn(tx, i, {"\t", " "}))
    [] c = "#" \/ two = "//" -> Tok("SingleLineComment", SkipTo(tx, i, {"\n"}))
    [] two = "/*" /\ mc # 0 -> Tok("MultilineComment", mc)
    [] nb # 0 -> Tok("Number", nb)
    [] hd # 0 -> Push("Heredoc", hd, "Heredoc", Delimiter(tx, i, hd))
    [] two \in DOMAIN TwoCharOps -> Tok(TwoCharOps[two], i + 2)
    [] c \in DOMAIN OneCharOps -> Tok(OneCharOps[c], i + 1)
    [] c \in {"\"", "'"} -> Push("String", i + 1, "String", c)
    [] OTHER -> NoTok

(***************************************************************************)
(* Texts.                                                                  *)
(***************************************************************************)
Markers(tx, i) ==                    \* interpolations and their escapes
  LET two == Two(tx, i)
      three == two \o At(tx, i + 2)
  IN CASE three \in {"$${", "%%{"} -> Tok("NonExpr", i + 3)
       [] two = "${" -> Push("Expr", i + 2, "Expr", "")
       [] two = "%{" -> Push("Directive", i + 2, "Expr", "")
       [] OTHER -> NoTok

InString(tx, i, quote) ==
  LET c == tx[i]
      m == Markers(tx, i)
  IN CASE c = "\\" -> IF At(tx, i + 1) = "u" THEN Push("Unicode", i + 2, "Unicode", "")
                      ELSE IF At(tx, i + 1) \in {"", "\n"} THEN NoTok
                      ELSE Tok("Escaped", i + 2)
       [] c = quote -> PopTok("StringEnd", i + 1)
       [] c \in {"\"", "'"} -> Tok("Quote", i + 1)
       [] m.j # 0 -> m
       [] c \in {"$", "%"} -> Tok("Char", i + 1)
       [] OTHER -> Tok("Char", SkipTo(tx, i, {"$", "%", "\"", "'", "\\"}))

InHeredoc(tx, i, delim) ==
  LET c == tx[i]
      m == Markers(tx, i)
      b == IF c \in {"$", "%"} THEN i + 1 ELSE i
      e == SkipTo(tx, b, {"\n", "$", "%"})
  IN CASE tx[i - 1] = "\n" /\ IsWord(tx, i, delim) -> PopTok("HeredocEnd", i + Len(delim))
       [] c = "\n" -> Tok("EOL", i + 1)
       [] m.j # 0 -> m
       [] OTHER -> Tok("Body", IF e > b THEN e ELSE i + 1)

(* The delimiter right behind a marker, in the middle of a line. *)
MidLine(tx, i, delim) == tx[i - 1] # "\n" /\ IsWord(tx, i, delim)

AllHex(tx, i, n) == \A k \in 0..(n - 1) : At(tx, i + k) \in HexDigits

InUnicode(tx, i) ==
  IF AllHex(tx, i, 8) THEN PopTok("UnicodeLong", i + 8)
  ELSE IF AllHex(tx, i, 4) THEN PopTok("UnicodeShort", i + 4)
  ELSE NoTok

InExpr(tx, i) == IF tx[i] = "}" THEN PopTok("ExprEnd", i + 1)
                 ELSE IF tx[i] = "{" THEN Push("BlockStart", i + 1, "Block", "")
                 ELSE Code(tx, i)

InBlock(tx, i) == IF tx[i] = "}" THEN PopTok("BlockEnd", i + 1)
                  ELSE IF tx[i] = "{" THEN Push("BlockStart", i + 1, "Block", "")
                  ELSE Code(tx, i)

(***************************************************************************)
(* One step: a lexer state is the position, the stack of modes, the tokens *)
(* so far (without blanks), whether a text contains a delimiter in the     *)
(* middle of a line, and how it ended ("" while it runs).                  *)
(***************************************************************************)
LexInit == [i |-> 1, st |-> <<[m |-> "Root", q |-> ""]>>, toks |-> << >>, mid |-> FALSE, end |-> ""]

Match(tx, s) ==
  LET top == s.st[Len(s.st)] IN
  CASE top.m = "Root" -> Code(tx, s.i)
    [] top.m = "String" -> InString(tx, s.i, top.q)
    [] top.m = "Heredoc" -> InHeredoc(tx, s.i, top.q)
    [] top.m = "Expr" -> InExpr(tx, s.i)
    [] top.m = "Block" -> InBlock(tx, s.i)
    [] top.m = "Unicode" -> InUnicode(tx, s.i)

LexStep(tx, s) ==
  IF s.i > Len(tx) THEN [s EXCEPT !.end = "ok"] ELSE
  LET m == Match(tx, s)
      top == s.st[Len(s.st)]
  IN IF m.j = 0 THEN [s EXCEPT !.end = "error"]
     ELSE [s EXCEPT
       !.i = m.j,
       !.st = CASE m.a = "push" -> Append(@, [m |-> m.m, q |-> m.q])
                [] m.a = "pop" -> SubSeq(@, 1, Len(@) - 1)
                [] OTHER -> @,
       !.toks = IF m.t = "whitespace" THEN @
                ELSE Append(@, [t |-> m.t, v |-> Join(tx, s.i, m.j), p |-> s.i, e |-> m.j]),
       !.mid = @ \/ (top.m = "Heredoc" /\ MidLine(tx, s.i, top.q))]

(* A token has a symbol at least: so many steps are enough. *)
LexRun(tx) == FoldLeft(LAMBDA s, k : IF s.end # "" THEN s ELSE LexStep(tx, s), LexInit, [k \in 1..(Len(tx) + 1) |-> k])

(* [ok, toks, mid]; the token behind the last one stands for the end, or for *)
(* the place where no token starts.                                         *)
Lex(tx) ==
  LET s == LexRun(tx)
      end == IF s.end = "ok" THEN Len(tx) + 1 ELSE s.i
  IN
  [ok |-> s.end = "ok", mid |-> s.mid,
   toks |-> Append(s.toks, [t |-> "EOF", v |-> "", p |-> end, e |-> end])]

(***************************************************************************)
(* Source positions: offset in bytes from 0, line from 1, column in        *)
(* characters from 1.                                                      *)
(***************************************************************************)
Positions(tx) ==
  FoldLeft(LAMBDA acc, c :
             LET cur == acc[Len(acc)] IN
             Append(acc, IF c = "\n" THEN <<cur[1] + 1, cur[2] + 1, 1>>
                         ELSE <<cur[1] + Width(c), cur[2], cur[3] + 1>>),
           <<<<0, 1, 1>>>>, tx)
=============================================================================
