------------------------------ MODULE EtxEntry ------------------------------
(***************************************************************************)
(* The ways to parse a text: from a string, from bytes, from a reader.      *)
(* A session parses the same few texts again and again, several at a time,  *)
(* while trees are edited in between and meanwhile, and buffers are          *)
(* overwritten after the call.  Every call gives what the text says, a tree *)
(* of its own; a reader that fails gives an error.                          *)
(***************************************************************************)
EXTENDS EtxEdit
LOCAL INSTANCE SequencesExt

CONSTANTS Docs,         \* texts in a session
          Calls         \* calls at a time, at most

VARIABLES docs          \* the texts of a session, parsed by the specification
nvars == <<text, text2, todo, fuel, hits, doc, trees, steps, left, docs>>

(* The trees of one session point to tokens of several texts. *)
RECURSIVE Shift(_, _)
Shift(t, k) == [t EXCEPT !.p = @ + k,
                         !.c = [i \in 1..Len(@) |-> IF @[i].k = "n" THEN [@[i] EXCEPT !.v = Shift(@, k)] ELSE @[i]]]
Before(i) == FoldLeft(LAMBDA a, j : a + (IF docs[j].ok THEN Len(docs[j].lx.toks) ELSE 0), 0, [j \in 1..(i - 1) |-> j])

(***************************************************************************)
(* A reader gives the bytes of its text in pieces of the sizes in reads,    *)
(* again and again; a piece may be empty.  At the end of the text it tells  *)
(* so, alone or with the last piece; or it fails: at once, half way, or at  *)
(* the end, alone or with the last piece.                                   *)
(***************************************************************************)
Sizes == << <<1>>, <<0, 1>>, <<2, 3>>, <<3, 0, 0, 1>>, <<7>>, <<64>>, <<511>>, <<512>>, <<4096>>, <<100000>> >>
Ends == <<"eof", "eof", "eof", "with", "with", "err-first", "err-half", "err-last", "err-with">>
Fails(c) == c.entry = "reader" /\ c.end \notin {"eof", "with"}
(* What a call gives. *)
Given(c) == IF Fails(c) \/ ~docs[c.doc].ok THEN << >> ELSE <<Shift(docs[c.doc].tree, Before(c.doc))>>

RECURSIVE Draws(_, _)
Draws(n, cs) ==       \* n calls
  IF n = 0 THEN cs
  ELSE Draws(n - 1, Append(cs, [doc |-> 1 + D(Docs), entry |-> Choose(<<"string", "bytes", "reader", "reader">>),
                                reads |-> Choose(Sizes), end |-> Choose(Ends), spoil |-> D(2) = 0]))

ParseStep(cs) ==
  LET made == FoldLeft(LAMBDA a, c : a \o Given(c), << >>, cs)
  IN /\ steps' = Append(steps, [op |-> "parse", calls |-> cs, tree |-> 0, path |-> << >>, at |-> 0, arg |-> NoArg, mades |-> made])
     /\ trees' = trees \o made

(* Trees are forgotten when there are many: the harness forgets them as well. *)
Forget == /\ steps' = Append(steps, [op |-> "forget", tree |-> 0, path |-> << >>, at |-> 0, arg |-> NoArg])
          /\ trees' = << >>

Collect ==               \* a text is written: take it
  /\ todo = << >> /\ left = 0
  /\ IF hits > 0 /\ text # << >> THEN Hit /\ hits' = hits - 1 /\ UNCHANGED <<todo, text2, fuel, docs, left>>
     ELSE /\ docs' = Append(docs, Doc(text))
          /\ IF Len(docs') < Docs THEN Again /\ left' = 0
             ELSE UNCHANGED <<text, text2, todo, fuel, hits>> /\ left' = Ops + 1
  /\ UNCHANGED <<doc, trees, steps>>

Session ==
  /\ left > 1
  /\ \E o \in {D(8)} :
       IF Len(trees) > 6 THEN Forget
       ELSE IF trees = << >> \/ o < 4 THEN \E n \in {1 + D(Calls)} : \E cs \in {Draws(n, << >>)} : ParseStep(cs)
       ELSE \E i \in {1 + D(Len(trees))} :
              CASE o \in {4, 5} -> SetText(i)
                [] o = 6 -> Graft(i)
                [] o = 7 -> Delete(i)
  /\ left' = left - 1
  /\ UNCHANGED <<text, text2, todo, fuel, hits, doc, docs>>

TellSession ==
  PrintT("@H " \o ToJson([docs |-> [k \in 1..Docs |-> Told(docs[k]) @@ [before |-> Before(k)]], steps |-> steps]))
Close ==
  /\ left = 1
  /\ TellSession
  /\ left' = 0 /\ docs' = << >> /\ trees' = << >> /\ steps' = << >> /\ doc' = doc
  /\ Again

NInit == EInit /\ docs = << >>
NNext == \/ left = 0 /\ (Write \/ Expand) /\ UNCHANGED <<doc, trees, steps, left, docs>>
         \/ Collect \/ Session \/ Close

(***************************************************************************)
(* Every sequence of at most Ops calls, one at a time, over fixed texts.    *)
(***************************************************************************)
FixedTexts == <<Chars("a = 1\n"), Chars("val x = \"") \o <<"<U+00E9>", "<U+1F600>">> \o Chars("${b}\"\n# c\n"), Chars("val x = ("), << >> >>
FixedReads == {<<1>>, <<0, 2>>, <<3>>, <<100000>>}
AllCalls == [doc : 1..Docs, entry : {"string", "bytes"}, reads : {<<1>>}, end : {"eof"}, spoil : BOOLEAN]
            \cup [doc : 1..Docs, entry : {"reader"}, reads : FixedReads, end : {Ends[k] : k \in 1..Len(Ends)}, spoil : {TRUE}]
XInit == /\ text = << >> /\ text2 = << >> /\ todo = << >> /\ fuel = 0 /\ hits = 0 /\ doc = << >> /\ trees = << >> /\ steps = << >> /\ left = Ops
         /\ docs = [k \in 1..Docs |-> Doc(FixedTexts[k])]
XNext == \/ /\ left > 0
            /\ \E c \in AllCalls : ParseStep(<<c>>)
            /\ left' = left - 1
            /\ UNCHANGED <<text, text2, todo, fuel, hits, doc, docs>>
XTell == steps # << >> => TellSession

(* A session never changes what a text gives, and trees are only added. *)
Constant == [][docs # << >> /\ docs' # << >> /\ Len(docs) = Docs => docs' = docs]_nvars
=============================================================================
