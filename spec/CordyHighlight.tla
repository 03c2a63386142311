----------------------------- MODULE CordyHighlight -----------------------------
(***************************************************************************)
(* The highlighter, and what the compiler says about texts which are not a *)
(* sequence of tokens.                                                     *)
(*                                                                         *)
(* A behaviour walks over the pieces of one text, prefix \o input: every   *)
(* character of the input is shown once, in order.  Those of a token stand *)
(* between marks of its class, a comment (and what is no token) between    *)
(* marks of a comment; blanks before it stand alone.  Of a token which     *)
(* begins in the prefix, the rest is shown.                                *)
(*   Progs[p]   prefix, input                                              *)
(*     events   what was recorded: characters, "<Class", ">Class"          *)
(*     blocked  the same, of a formatter which closes marks over lines     *)
(*     html     of the interpreter, if it was asked (or "")                *)
(*     no       the classes it was told to leave out                       *)
(*     errors   of the compiler, for prefix \o input; ats: how to read them*)
(*     text     its lines                                                  *)
(***************************************************************************)
EXTENDS CordyScan, CordyReport, CordyMachine

VARIABLE s

Full(p) == Progs[p].prefix \o Progs[p].input
Rec(p) == Progs[p].events
TYPES == {"int", "str", "function", "list", "heap", "dict", "set", "vector", "any", "bool", "iterable", "complex", "rational"}
CONSTANTS_ == {"true", "false", "nil", "and", "or", "not", "is", "in", "self"}
Class(t) == CASE t.k \in {"str", "open"} -> "String"
              [] t.k \in {"int", "cpx"} -> "Number"
              [] t.k = "kw" -> (IF t.v \in {"and", "or"} \cup CONSTANTS_ THEN "Constant" ELSE "Keyword")
              [] t.k = "id" /\ t.v \in TYPES -> "Type"
              [] t.k = "id" /\ t.v \in NATIVES -> "Native"
              [] OTHER -> "Syntax"

(* do the recorded events o+1, o+2, ... begin with those of xs *)
Same(p, o, xs) == o + Len(xs) <= Len(Rec(p)) /\ \A i \in DOMAIN xs : Rec(p)[o + i] = xs[i]
Slice1(cs, a, b) == [i \in 1 .. (IF b < a THEN 0 ELSE b - a + 1) |-> cs[a + i - 1]]
Marked(cs, a, b, c) == IF b < a THEN <<>> ELSE <<"<" \o c>> \o Slice1(cs, a, b) \o <<">" \o c>>
(* what stands between two tokens *)
Gap2(cs, a, j, b) == Slice1(cs, a, IF j > b + 1 THEN b ELSE j - 1) \o Marked(cs, j, b, "Comment")
Gap(cs, a, b) == Gap2(cs, a, Run1(cs, a, BLANK), b)

(* line breaks are never between marks *)
RECURSIVE Block(_,_,_)
Block(ev, i, open) ==
  IF i > Len(ev) THEN <<>>
  ELSE IF Len(ev[i]) > 1 THEN <<ev[i]>> \o Block(ev, i + 1, IF SubSeq(ev[i], 1, 1) = "<" THEN SubSeq(ev[i], 2, Len(ev[i])) ELSE "")
  ELSE IF ev[i] = "\n" /\ open # "" THEN <<">" \o open, "\n", "<" \o open>> \o Block(ev, i + 1, open)
  ELSE <<ev[i]>> \o Block(ev, i + 1, open)
Lower(c) == CASE c = "Keyword" -> "keyword" [] c = "Constant" -> "constant" [] c = "Native" -> "native" [] c = "Type" -> "type" [] c = "Number" -> "number"
              [] c = "String" -> "string" [] c = "Syntax" -> "syntax" [] OTHER -> "comment"
Html(e, no) ==
  IF Len(e) > 1 THEN LET c == SubSeq(e, 2, Len(e)) IN
       IF c \in no THEN "" ELSE IF SubSeq(e, 1, 1) = "<" THEN "<span class=\"cordy-" \o Lower(c) \o "\">" ELSE "</span>"
  ELSE CASE e = "\r" -> "" [] e = "\t" -> "    " [] e = "<" -> "&lt;" [] e = ">" -> "&gt;" [] e = "\"" -> "&quot;" [] e = "'" -> "&#39;" [] e = "&" -> "&amp;" [] OTHER -> e
RECURSIVE Page(_,_,_)
Page(ev, no, i) == IF i > Len(ev) THEN "" ELSE Html(ev[i], no) \o Page(ev, no, i + 1)
PageOf(p, ev) == "<code class=\"cordy\"><pre>" \o Page(ev, {Progs[p].no[i] : i \in DOMAIN Progs[p].no}, 1) \o "</pre></code>\n"

(* the errors of the pieces, each with the characters it shows *)
LineAt(cs, i) == 1 + Breaks(cs, 1, i - 1)
RECURSIVE LineStart(_,_)
LineStart(cs, i) == IF i = 1 \/ cs[i - 1] = "\n" THEN i ELSE LineStart(cs, i - 1)
Shows(L, cs, t) ==
  LET a == LineAt(cs, t.ea) b == LineAt(cs, t.eb) IN
  ReportText(L, "<test>", [msg |-> t.v, a |-> a, b |-> b, c |-> t.ea - LineStart(cs, t.ea), n |-> t.eb - t.ea + 1, trace |-> ""])
Lexical(p, cs, bad) ==
  LET es == Progs[p].errors IN
  IF bad = <<>> THEN \A i \in DOMAIN es : \A u \in {"Invalid numeric", "Invalid character", "Unterminated "} : SubSeq(es[i], 1, Len(u)) # u
  ELSE Len(es) = Len(bad) /\ \A i \in DOMAIN bad : es[i] = Shows(Progs[p].text, cs, bad[i])

Bad2(t, kind, what) == [t EXCEPT !.m = "done", !.v = <<kind, what>>]
(* the characters before the next piece, and those of the piece *)
Upper(a, b) == IF a > b THEN a ELSE b
Emit1(t, xs, i) == IF Same(t.pid, t.o, xs) THEN [t EXCEPT !.o = t.o + Len(xs), !.i = i]
                   ELSE Bad2(t, "events", "after character " \o ToString(t.i - 1) \o " of the text, expected " \o ToString(xs))
Walk(t) ==
  LET tok == t.ts[t.j] IN
  IF tok.b < t.i \/ tok.k = "err" THEN [t EXCEPT !.j = t.j + 1]
  ELSE Emit1([t EXCEPT !.j = t.j + 1], Gap(t.cs, t.i, tok.a - 1) \o Marked(t.cs, Upper(tok.a, t.i), tok.b, Class(tok)), tok.b + 1)
Last1(t) == Emit1([t EXCEPT !.j = t.j + 1], Gap(t.cs, t.i, Len(t.cs)), Len(t.cs) + 1)
Rest1(t) ==
  LET p == t.pid IN
  IF t.o # Len(Rec(p)) THEN Bad2(t, "events", "there is more than the text")
  ELSE IF Progs[p].blocked # Block(Rec(p), 1, "") THEN Bad2(t, "blocked", "marks over line breaks")
  ELSE IF Progs[p].html # "" /\ Progs[p].html # PageOf(p, Progs[p].blocked) THEN Bad2(t, "html", "the page shows " \o PageOf(p, Progs[p].blocked))
  ELSE IF ~Lexical(p, t.cs, IllPieces(t.ts)) THEN Bad2(t, "lexical", "the errors are " \o ToString([i \in DOMAIN IllPieces(t.ts) |-> Shows(Progs[p].text, t.cs, IllPieces(t.ts)[i])]))
  ELSE Bad2(t, "ok", "")
StepH(t) == IF t.j <= Len(t.ts) THEN Walk(t) ELSE IF t.j = Len(t.ts) + 1 THEN Last1(t) ELSE Rest1(t)

RECURSIVE RunH(_,_)
RunH(t, n) == IF n = 0 \/ t.m = "done" THEN t ELSE RunH([StepH(t) EXCEPT !.nst = t.nst + 1], n - 1)
StartH(p, cs) == [pid |-> p, m |-> "walk", cs |-> cs, ts |-> Scan(cs), i |-> Len(CharsOf(Progs[p].prefix)) + 1, j |-> 1, o |-> 0, v |-> <<>>, nst |-> 0]
Init == \E p \in DOMAIN Progs : s = [pid |-> p, m |-> "new", i |-> 0, j |-> 0, nst |-> 0]
Tell(t) == IF t.m = "done" THEN PrintT(<<"VERDICT", t.pid, t.v, t.nst>>) ELSE TRUE
Steps(n) == /\ s.m # "done"
            /\ s' = IF s.m = "new" THEN StartH(s.pid, CharsOf(Full(s.pid))) ELSE RunH(s, n)
            /\ Tell(s')
Next == <<Steps(30)>>_s
View == <<s.pid, s.m, s.i, s.j>>

(* what has been shown so far is the text so far, with marks that are paired and never nested *)
Plain1(e) == Len(e) = 1
Shown == s.m = "walk" => /\ SelectSeq(SubSeq(Rec(s.pid), 1, s.o), Plain1) = SubSeq(s.cs, Len(Progs[s.pid].prefix) + 1, s.i - 1)
                         /\ s.o = 0 \/ ~(Len(Rec(s.pid)[s.o]) > 1 /\ SubSeq(Rec(s.pid)[s.o], 1, 1) = "<")
=============================================================================
