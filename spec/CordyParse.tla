-------------------------------- MODULE CordyParse --------------------------------
(***************************************************************************)
(* The grammar: what a sequence of tokens means.  ts are the pieces of     *)
(* CordyScan, each with its line (l).                                      *)
(*                                                                         *)
(* Every operator reads from token i on and gives [n |-> a tree,           *)
(* i |-> the token after it].  What is not of the grammar leads past the   *)
(* end of the text (BAD), so that no tree ends at the end of the text.     *)
(*                                                                         *)
(* Levels of expressions, from the loosest: assignment (to the right), `,` *)
(* (10), and/or (9), comparison chains (8), `.` (7), & | ^ (6), << >> (5), *)
(* + - (4), * / % ** is in (3), prefix operators, calls and accesses,      *)
(* which must begin on the line where the expression ends.                 *)
(***************************************************************************)
EXTENDS CordyScan, CordyInt

BAD == 1000000
NONE == <<"none">>
R(n, i) == [n |-> n, i |-> i]
Bad3(what) == R(<<"bad", 0, <<>>, FALSE, FALSE, <<>>>>, BAD)
Kind1(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE "eof"
(* the symbol or keyword at i; the name at i *)
At(ts, i) == IF i <= Len(ts) /\ ts[i].k \in {"sym", "kw"} THEN ts[i].v ELSE ""
Line(ts, i) == IF i <= Len(ts) THEN ts[i].l ELSE IF ts = <<>> THEN 1 ELSE ts[Len(ts)].l
Prev(ts, i) == IF i >= 2 /\ i <= Len(ts) + 1 THEN ts[i - 1].l ELSE 0
SameLine(ts, i) == i <= Len(ts) => ~ts[i].nl
Exp(ts, i, v) == IF At(ts, i) = v THEN i + 1 ELSE BAD
IsName(ts, i) == Kind1(ts, i) = "id"
NameAt(ts, i) == IF IsName(ts, i) THEN ts[i].v ELSE "?"
AfterName(ts, i) == IF IsName(ts, i) THEN i + 1 ELSE BAD

OPASG == {"+=", "-=", "*=", "/=", "&=", "|=", "^=", "<<=", ">>=", "%=", "**=", ".="}
CMPS == {"<", "<=", ">", ">=", "==", "!="}
BIN3 == {"*", "/", "%", "**", "is", "is not", "in", "not in"}
BINL(lv) == CASE lv = 3 -> BIN3 [] lv = 4 -> {"+", "-"} [] lv = 5 -> {"<<", ">>"} [] OTHER -> {"&", "|", "^"}
(* the operators of which a section can be made with one operand, and those which have none without a side *)
SECTIONS == BIN3 \cup {"+", "<<", ">>", "&", "|", "^"} \cup CMPS
EITHER == {"*", "&", "|", "^", "==", "!=", "+"}
ENDERS == {",", ")", "}", "]"}
OpAt(ts, i) == IF At(ts, i) = "is" /\ At(ts, i + 1) = "not" THEN <<"is not", 2>>
               ELSE IF At(ts, i) = "not" /\ At(ts, i + 1) = "in" THEN <<"not in", 2>>
               ELSE <<At(ts, i), 1>>

RECURSIVE ValOf(_,_,_,_), HexOrder(_,_)
HexOrder(c, i) == IF SubSeq("0123456789abcdef", i, i) = c \/ SubSeq("0123456789ABCDEF", i, i) = c THEN i - 1 ELSE HexOrder(c, i + 1)
ValOf(d, i, base, acc) == IF i > Len(d) THEN acc ELSE ValOf(d, i + 1, base, IAdd(IMul(acc, <<"int", base>>), <<"int", HexOrder(SubSeq(d, i, i), 1)>>))
NumberOf(t) == ValOf(t.v, 1, t.base, <<"int", 0>>)
Literal(t) == IF t.k = "int" THEN NumberOf(t) ELSE IF NumberOf(t) = <<"int", 0>> THEN <<"int", 0>> ELSE <<"cpx", <<"int", 0>>, NumberOf(t)>>

(* [unrolled] elements *)
Un(e) == IF e[1] = "unroll" THEN <<e[3], TRUE>> ELSE <<e, FALSE>>
UnAll(es) == [i \in DOMAIN es |-> Un(es[i])]

RECURSIVE Expr(_,_,_), L10(_,_), L10More(_,_,_,_), L9(_,_), L9More(_,_), L8More(_,_,_), L7(_,_), L7More(_,_), Bin(_,_,_), BinMore(_,_,_), Unary(_,_), Suffix(_,_), Terminal(_,_), Then(_,_,_),
          Commas(_,_), CommasMore(_,_,_,_), Arg(_,_), ListMore(_,_,_), SetMore(_,_,_,_,_), Slc(_,_,_,_), Function(_,_,_,_), Params(_,_,_,_), Pat(_,_), Pats(_,_,_), Stmts(_,_,_,_), Stmt(_,_,_), Lets(_,_,_,_), If(_,_,_), Decos(_,_,_,_), ToPat(_,_), ToPats(_,_,_)

(***************************************************************************)
(* Patterns                                                                *)
(***************************************************************************)
Pat(ts, i) ==
  CASE IsName(ts, i) -> R(<<"n", ts[i].v>>, i + 1)
    [] At(ts, i) = "_" -> R(<<"_">>, i + 1)
    [] At(ts, i) = "*" /\ At(ts, i + 1) = "_" -> R(<<"rest", "_">>, i + 2)
    [] At(ts, i) = "*" /\ IsName(ts, i + 1) -> R(<<"rest", ts[i + 1].v>>, i + 2)
    [] At(ts, i) = "(" -> LET r == Pats(ts, i + 1, <<>>) IN R(<<"p", r.n>>, Exp(ts, r.i, ")"))
    [] OTHER -> Bad3("pattern")
Pats(ts, i, acc) == LET r == Pat(ts, i) IN IF At(ts, r.i) = "," THEN Pats(ts, r.i + 1, Append(acc, r.n)) ELSE R(Append(acc, r.n), r.i)
BarePat(ts, i) == LET r == Pats(ts, i, <<>>) IN IF Len(r.n) = 1 /\ r.n[1][1] # "p" THEN R(r.n[1], r.i) ELSE R(<<"p", r.n>>, r.i)

(* an expression as the target of an assignment: a pattern, the operands of its accesses, the lines of its names and of its fields *)
NoParts == [subs |-> <<>>, nls |-> <<>>, fls |-> <<>>, p |-> <<>>]
ToPat(e, a) ==
  CASE e[1] = "var" -> [a EXCEPT !.p = <<"n", e[3]>>, !.nls = Append(a.nls, e[2])]
    [] e[1] = "empty" -> [a EXCEPT !.p = <<"_">>]
    [] e[1] = "varempty" -> [a EXCEPT !.p = <<"rest", "_">>]
    [] e[1] = "varname" -> [a EXCEPT !.p = <<"rest", e[3]>>, !.nls = Append(a.nls, e[4])]
    [] e[1] = "idx" -> [a EXCEPT !.subs = a.subs \o <<e[3], e[4]>>, !.p = <<"ti", Len(a.subs) + 1, Len(a.subs) + 2>>]
    [] e[1] = "getf" -> [a EXCEPT !.subs = Append(a.subs, e[3]), !.fls = Append(a.fls, e[5]), !.p = <<"tf", Len(a.subs) + 1, e[4]>>]
    [] e[1] = "comma" -> LET r == ToPats(e[3], 1, [a EXCEPT !.p = <<>>]) IN [r EXCEPT !.p = <<"p", r.p>>]
    [] e[1] = "sec" /\ e[3] = "(*)" /\ e[4][1] = "empty" -> [a EXCEPT !.p = <<"rest", "_">>]
    [] e[1] = "sec" /\ e[3] = "(*)" /\ e[4][1] = "var" -> [a EXCEPT !.p = <<"rest", e[4][3]>>, !.nls = Append(a.nls, e[4][2])]
    [] OTHER -> [a EXCEPT !.p = <<"bad", "target">>]
ToPats(es, i, a) == IF i > Len(es) THEN a
                    ELSE LET q == a.p r == ToPat(es[i], a) IN ToPats(es, i + 1, [r EXCEPT !.p = Append(q, r.p)])

(***************************************************************************)
(* Expressions                                                             *)
(***************************************************************************)
Assign2(l, e, a, r) == <<"pasg", l, IF e[5] THEN a.p ELSE <<"p", <<a.p>>>>, a.subs, r, a.nls, a.fls>>
Assign(l, e, r) ==
  CASE e[1] = "var" -> <<"asg", l, e[3], r, e[2]>>
    [] e[1] = "idx" -> <<"seti", l, e[3], e[4], r>>
    [] e[1] = "getf" -> <<"setf", l, e[3], e[4], r, e[5]>>
    [] e[1] = "comma" -> Assign2(l, e, ToPat(e, NoParts), r)
    [] OTHER -> <<"bad", "target">>
OpAssign(l, op, e, r) ==
  CASE e[1] = "var" -> <<"opasg", l, op, e[3], r, e[2]>>
    [] e[1] = "idx" -> <<"opseti", l, op, e[3], e[4], r>>
    [] e[1] = "getf" -> <<"opsetf", l, op, e[3], e[4], r, e[5]>>
    [] OTHER -> <<"bad", "target">>
(* the compound operator at i: its name and its length *)
OpAsgAt(ts, i) == IF At(ts, i) \in OPASG THEN <<SubSeq(At(ts, i), 1, Len(At(ts, i)) - 1), 1>>
                  ELSE IF IsName(ts, i) /\ ts[i].v \in {"max", "min"} /\ At(ts, i + 1) = "=" THEN <<ts[i].v, 2>> ELSE <<"", 0>>
ExprRest(ts, e, o, comma) ==
  IF At(ts, e.i) = "=" THEN LET r == Expr(ts, e.i + 1, comma) IN R(Assign(Line(ts, e.i), e.n, r.n), r.i)
  ELSE IF o[2] > 0 THEN LET r == Expr(ts, e.i + o[2], comma) IN R(OpAssign(Line(ts, e.i), o[1], e.n, r.n), r.i)
  ELSE e
ExprOf(ts, e, comma) == ExprRest(ts, e, OpAsgAt(ts, e.i), comma)
Expr(ts, i, comma) == ExprOf(ts, IF comma THEN L9(ts, i) ELSE L10(ts, i), comma)

L10(ts, i) == LET e == L9(ts, i) IN L10More(ts, e.i, <<e.n>>, Line(ts, i))
L10End(i, acc, l) == R(IF Len(acc) = 1 THEN acc[1] ELSE <<"comma", l, acc, TRUE, TRUE>>, i)
L10More(ts, i, acc, l) == IF At(ts, i) = "," /\ At(ts, i + 1) \notin {")", "="} THEN LET e == L7(ts, i + 1) IN L10More(ts, e.i, Append(acc, e.n), l) ELSE L10End(i, acc, l)

L8(ts, i) == LET e == L7(ts, i) IN L8More(ts, e, <<>>)
L8More(ts, e, ops) ==
  IF At(ts, e.i) \in CMPS /\ At(ts, e.i + 1) # ")"
  THEN LET r == L7(ts, e.i + 1) IN L8More(ts, R(e.n, r.i), Append(ops, <<At(ts, e.i), r.n, Line(ts, e.i)>>))
  ELSE IF ops = <<>> THEN e ELSE R(<<"cmp", ops[1][3], e.n, [j \in DOMAIN ops |-> <<ops[j][1], ops[j][2]>>], [j \in DOMAIN ops |-> ops[j][3]]>>, e.i)
L9(ts, i) == L9More(ts, L8(ts, i))
L9More(ts, e) == IF At(ts, e.i) \in {"and", "or"} /\ At(ts, e.i + 1) # ")"
                 THEN LET r == L8(ts, e.i + 1) IN L9More(ts, R(<<At(ts, e.i), Line(ts, e.i), e.n, r.n>>, r.i)) ELSE e
L7(ts, i) == L7More(ts, Bin(ts, i, 6))
L7More(ts, e) == IF At(ts, e.i) = "." THEN LET r == Bin(ts, e.i + 1, 6) IN L7More(ts, R(<<"comp", Line(ts, e.i), e.n, r.n>>, r.i)) ELSE e
Bin(ts, i, lv) == IF lv = 2 THEN Unary(ts, i) ELSE BinMore(ts, Bin(ts, i, lv - 1), lv)
BinMore2(ts, e, lv, o) == IF o[1] \notin BINL(lv) \/ At(ts, e.i + o[2]) = ")" THEN e
                          ELSE LET r == Bin(ts, e.i + o[2], lv - 1) IN BinMore(ts, R(<<"bin", Line(ts, e.i), o[1], e.n, r.n>>, r.i), lv)
BinMore(ts, e, lv) == BinMore2(ts, e, lv, OpAt(ts, e.i))
Unary(ts, i) == IF At(ts, i) \in {"-", "!", "not"} THEN LET e == Unary(ts, i + 1) IN R(<<"un", Line(ts, i), At(ts, i), e.n>>, e.i)
                ELSE Suffix(ts, Terminal(ts, i))
BareArg(ts, i) == \/ IsName(ts, i) /\ At(ts, i + 1) # "="
                  \/ At(ts, i) = "fn" /\ At(ts, i + 1) = "("
                  \/ Kind1(ts, i) \in {"int", "cpx", "str"}
                  \/ At(ts, i) \in {"nil", "true", "false", "exit", "if"}
CallWith(l, e, c) == <<"call", l, e, UnAll(c)>>
Suffix(ts, e) ==
  CASE At(ts, e.i) = "(" /\ SameLine(ts, e.i) /\ At(ts, e.i + 1) = ")" -> Suffix(ts, R(<<"call", Line(ts, e.i), e.n, <<>>>>, e.i + 2))
    [] At(ts, e.i) = "(" /\ SameLine(ts, e.i) /\ At(ts, e.i + 1) # ")" -> LET c == Commas(ts, e.i) IN Suffix(ts, R(CallWith(Line(ts, e.i), e.n, c.n[3]), c.i))
    [] At(ts, e.i) = "[" /\ SameLine(ts, e.i) /\ At(ts, e.i + 1) = ":" -> LET c == Slc(ts, e.i + 1, NONE, FALSE) IN Suffix(ts, R(<<"slc", Line(ts, e.i), e.n>> \o c.n, c.i))
    [] At(ts, e.i) = "[" /\ SameLine(ts, e.i) /\ At(ts, e.i + 1) # ":" ->
         LET a == Expr(ts, e.i + 1, TRUE) IN
         IF At(ts, a.i) = "]" THEN Suffix(ts, R(<<"idx", Line(ts, e.i), e.n, a.n>>, a.i + 1))
         ELSE LET c == Slc(ts, a.i, a.n, FALSE) IN Suffix(ts, R(<<"slc", Line(ts, e.i), e.n>> \o c.n, c.i))
    [] SameLine(ts, e.i) /\ BareArg(ts, e.i) -> LET a == Terminal(ts, e.i) IN Suffix(ts, R(<<"call", Line(ts, e.i), e.n, <<<<a.n, FALSE>>>>>>, a.i))
    [] SameLine(ts, e.i) /\ At(ts, e.i) = "@" -> Bad3("decorator")
    [] At(ts, e.i) = "->" -> Suffix(ts, R(<<"getf", Line(ts, e.i), e.n, NameAt(ts, e.i + 1), Line(ts, e.i + 1)>>, AfterName(ts, e.i + 1)))
    [] OTHER -> e
(* the rest of a slice from its first `:` on; its parts *)
SlcArg(ts, i, args) == IF args THEN Arg(ts, i) ELSE Expr(ts, i, TRUE)
Slc3(ts, b, a, args) ==
  IF At(ts, b.i) # ":" THEN R(<<a, b.n, NONE>>, Exp(ts, b.i, "]"))
  ELSE IF At(ts, b.i + 1) = "]" THEN R(<<a, b.n, NONE>>, b.i + 2)
  ELSE LET c == SlcArg(ts, b.i + 1, args) IN R(<<a, b.n, c.n>>, Exp(ts, c.i, "]"))
Slc(ts, i, a, args) == IF At(ts, i) # ":" THEN Bad3("slice")
                       ELSE Slc3(ts, IF At(ts, i + 1) \in {":", "]"} THEN R(NONE, i + 1) ELSE SlcArg(ts, i + 1, args), a, args)

ListOf(ts, l, a) == IF At(ts, a.i) = ":" THEN LET c == Slc(ts, a.i, a.n, TRUE) IN R(<<"mkslc", l, NONE>> \o c.n, c.i)
                    ELSE LET r == ListMore(ts, a.i, <<a.n>>) IN R(<<"mk", l, "list", UnAll(r.n)>>, r.i)
ListMore(ts, i, acc) == IF At(ts, i) = "," /\ At(ts, i + 1) # "]" THEN LET a == Arg(ts, i + 1) IN ListMore(ts, a.i, Append(acc, a.n))
                        ELSE R(acc, Exp(ts, IF At(ts, i) = "," THEN i + 1 ELSE i, "]"))
List1(ts, i) == CASE At(ts, i + 1) = "]" -> R(<<"mk", Line(ts, i), "list", <<>>>>, i + 2)
                  [] At(ts, i + 1) = ":" -> LET c == Slc(ts, i + 1, NONE, TRUE) IN R(<<"mkslc", Line(ts, i), NONE>> \o c.n, c.i)
                  [] OTHER -> ListOf(ts, Line(ts, i), Arg(ts, i + 1))
(* what: is it a set or a dictionary, which the first element that is not unrolled says *)
SetPart(ts, a, acc, what, l) ==
  IF a.n[1] = "unroll" THEN SetMore(ts, a.i, Append(acc, a.n), what, l)
  ELSE IF what = "dict" \/ (what = "" /\ At(ts, a.i) = ":")
       THEN (IF At(ts, a.i) # ":" THEN Bad3("dict") ELSE LET b == Arg(ts, a.i + 1) IN SetMore(ts, b.i, acc \o <<a.n, b.n>>, "dict", l))
  ELSE SetMore(ts, a.i, Append(acc, a.n), "set", l)
SetMore(ts, i, acc, what, l) ==
  CASE At(ts, i) = "}" -> R(<<"mk", l, IF what = "dict" THEN "dict" ELSE "set", UnAll(acc)>>, i + 1)
    [] acc # <<>> /\ At(ts, i) # "," -> Bad3("set")
    [] acc # <<>> /\ At(ts, i + 1) = "}" -> SetMore(ts, i + 1, acc, what, l)
    [] OTHER -> SetPart(ts, Arg(ts, IF acc = <<>> THEN i ELSE i + 1), acc, what, l)

(* between parentheses and brackets: operators without operands, sections, fields, unrolled expressions *)
Section(l, o, e) == <<"sec", l, "(" \o o \o ")" \o (IF o \in EITHER \ {"+"} THEN "" ELSE "~"), e>>
Sectioned(ts, e, o) == IF o[1] \in SECTIONS /\ At(ts, e.i + o[2]) \in ENDERS THEN R(<<"sec", Line(ts, e.i), "(" \o o[1] \o ")", e.n>>, e.i + o[2]) ELSE e
ArgOp(ts, i, o) ==
  IF o[1] \in SECTIONS
  THEN IF At(ts, i + o[2]) \in ENDERS THEN R(<<"lit", Line(ts, i), <<"nat", "(" \o o[1] \o ")">>>>, i + o[2])
       ELSE LET e == Expr(ts, i + o[2], TRUE) IN R(Section(Line(ts, i), o[1], e.n), e.i)
  ELSE LET e == Expr(ts, i, TRUE) IN Sectioned(ts, e, OpAt(ts, e.i))
Arg(ts, i) ==
  CASE At(ts, i) \in {"-", "!", "not"} /\ At(ts, i + 1) \in ENDERS -> R(<<"lit", Line(ts, i), <<"nat", "(" \o At(ts, i) \o ")">>>>, i + 1)
    [] At(ts, i) = "->" -> R(<<"lit", Line(ts, i), <<"getf", NameAt(ts, i + 1)>>, Line(ts, i + 1)>>, AfterName(ts, i + 1))
    [] At(ts, i) = "..." -> LET e == Expr(ts, i + 1, TRUE) IN R(<<"unroll", Line(ts, i), e.n>>, e.i)
    [] OTHER -> ArgOp(ts, i, OpAt(ts, i))
Commas(ts, i) == LET a == Arg(ts, i + 1) IN CommasMore(ts, a.i, <<a.n>>, Line(ts, i))
CommasMore(ts, i, acc, l) ==
  CASE At(ts, i) = ")" -> R(<<"comma", l, acc, FALSE, FALSE>>, i + 1)
    [] At(ts, i) = "," /\ At(ts, i + 1) = ")" -> R(<<"comma", l, acc, TRUE, FALSE>>, i + 2)
    [] At(ts, i) = "," -> LET a == Arg(ts, i + 1) IN CommasMore(ts, a.i, Append(acc, a.n), l)
    [] OTHER -> Bad3("comma")

Tern(ts, l, c, a) ==
  CASE At(ts, a.i) = "elif" -> LET d == Expr(ts, a.i + 1, TRUE) e == Then(ts, Line(ts, a.i), d) IN R(<<"tern", l, c, a.n, e.n>>, e.i)
    [] At(ts, a.i) = "else" -> LET e == Expr(ts, a.i + 1, TRUE) IN R(<<"tern", l, c, a.n, e.n>>, e.i)
    [] OTHER -> Bad3("then")
Then(ts, l, c) == IF At(ts, c.i) # "then" THEN Bad3("then") ELSE Tern(ts, l, c.n, Expr(ts, c.i + 1, TRUE))

Terminal(ts, i) ==
  CASE Kind1(ts, i) \in {"int", "cpx"} -> R(<<"lit", Line(ts, i), Literal(ts[i])>>, i + 1)
    [] Kind1(ts, i) = "str" -> R(<<"lit", Line(ts, i), <<"str", ts[i].v>>>>, i + 1)
    [] At(ts, i) = "nil" -> R(<<"lit", Line(ts, i), <<"nil">>>>, i + 1)
    [] At(ts, i) \in {"true", "false"} -> R(<<"lit", Line(ts, i), <<"bool", At(ts, i) = "true">>>>, i + 1)
    [] At(ts, i) = "exit" -> R(<<"exit", Line(ts, i)>>, i + 1)
    [] At(ts, i) = "_" -> R(<<"empty", Line(ts, i)>>, i + 1)
    [] At(ts, i) = "*" /\ At(ts, i + 1) = "_" -> R(<<"varempty", Line(ts, i), Line(ts, i + 1)>>, i + 2)
    [] At(ts, i) = "*" /\ IsName(ts, i + 1) -> R(<<"varname", Line(ts, i), ts[i + 1].v, Line(ts, i + 1)>>, i + 2)
    [] At(ts, i) = "self" -> R(<<"var", Line(ts, i), "self">>, i + 1)
    [] IsName(ts, i) -> R(<<"var", Line(ts, i), ts[i].v>>, i + 1)
    [] At(ts, i) = "(" -> Commas(ts, i)
    [] At(ts, i) = "[" -> List1(ts, i)
    [] At(ts, i) = "{" -> SetMore(ts, i + 1, <<>>, "", Line(ts, i))
    [] At(ts, i) = "fn" -> Function(ts, i + 1, "_", 0)
    [] At(ts, i) = "if" -> Then(ts, Line(ts, i), Expr(ts, i + 1, TRUE))
    [] OTHER -> Bad3("terminal")

(***************************************************************************)
(* Functions                                                               *)
(***************************************************************************)
Param(ts, q, this) ==
  CASE q.n[1] = "rest" -> R(<<<<"n", q.n[2]>>, "var", NONE>>, q.i)
    [] At(ts, q.i) = "?" -> R(<<q.n, "def", <<"lit", Line(ts, q.i + 1), <<"nil">>>>>>, q.i + 1)
    [] At(ts, q.i) = "=" -> LET e == Expr(ts, q.i + 1, TRUE) IN R(<<q.n, "def", e.n>>, e.i)
    [] OTHER -> R(<<q.n, "req", NONE>>, q.i)
ParamNext(ts, r, acc) == IF At(ts, r.i) = "," THEN Params(ts, r.i + 1, acc, FALSE) ELSE IF At(ts, r.i) = ")" THEN R(acc, r.i + 1) ELSE Bad3("parameters")
Params(ts, i, acc, this) ==
  IF At(ts, i) = ")" THEN R(acc, i + 1)
  ELSE IF this /\ At(ts, i) = "self" THEN ParamNext(ts, R(0, i + 1), Append(acc, <<<<"n", "self">>, "req", NONE>>))
  ELSE LET r == Param(ts, Pat(ts, i), this) IN ParamNext(ts, r, Append(acc, r.n))
ParamsAt(ts, i, this) == IF At(ts, i) # "(" THEN Bad3("parameters") ELSE Params(ts, i + 1, <<>>, this)
Body(ts, i) == IF At(ts, i) = "{" THEN LET b == Stmts(ts, i + 1, <<>>, FALSE) IN R(<<"blk", Line(ts, b.i), b.n, TRUE>>, Exp(ts, b.i, "}"))
               ELSE IF At(ts, i) = "->" THEN Expr(ts, i + 1, FALSE) ELSE Bad3("body")
(* the function whose parameters begin at i.  sid: of the struct it is declared in *)
Function1(ts, name, ps, b, sid) == R(<<"fn", Prev(ts, ps.i), name, ps.n, b.n, sid, "">>, b.i)
Function(ts, i, name, sid) == LET ps == ParamsAt(ts, i, sid > 0) IN Function1(ts, name, ps, Body(ts, ps.i), sid)

(***************************************************************************)
(* Statements.  g: is this the global scope                                *)
(***************************************************************************)
Block(ts, i) == IF At(ts, i) # "{" THEN Bad3("block") ELSE LET b == Stmts(ts, i + 1, <<>>, FALSE) IN R(<<"blk", Line(ts, b.i), b.n, FALSE>>, Exp(ts, b.i, "}"))
ElseAt(ts, i) == IF At(ts, i) = "else" THEN Block(ts, i + 1) ELSE R(NONE, i)
Stmts(ts, i, acc, g) ==
  IF i > Len(ts) \/ At(ts, i) = "}" THEN R(acc, i)
  ELSE IF At(ts, i) = ";" THEN Stmts(ts, i + 1, Append(acc, <<"nop", Line(ts, i)>>), g)
  ELSE LET r == Stmt(ts, i, g) IN Stmts(ts, r.i, acc \o r.n, g)
One(n, i) == R(<<n>>, i)
OneOf(r) == One(r.n, r.i)

Names(p) == IF p[1] = "p" THEN [i \in DOMAIN p[2] |-> p[2][i][2]] ELSE <<p[2]>>
Let1(ts, p, g) ==
  IF At(ts, p.i) = "=" THEN LET e == L9(ts, p.i + 1) IN R(<<"let", Prev(ts, e.i), p.n, e.n, g, Prev(ts, p.i)>>, e.i)
  ELSE R(<<"let", Prev(ts, p.i), <<"p", Names(p.n)>>, NONE, g, Prev(ts, p.i)>>, p.i)
Lets(ts, i, acc, g) == LET r == Let1(ts, BarePat(ts, i), g) IN IF At(ts, r.i) = "," THEN Lets(ts, r.i + 1, Append(acc, r.n), g) ELSE R(Append(acc, r.n), r.i)

IfRest(ts, l, c, b, g) ==
  IF At(ts, b.i) = "elif" THEN LET e == If(ts, b.i, g) IN R(<<"if", l, c, b.n, e.n>>, e.i)
  ELSE LET e == ElseAt(ts, b.i) IN R(<<"if", l, c, b.n, e.n>>, e.i)
If1(ts, l, c, g) == IF At(ts, c.i) = "then" THEN LET e == Then(ts, l, c) IN R(<<"expr", l, e.n>>, e.i) ELSE IfRest(ts, l, c.n, Block(ts, c.i), g)
If(ts, i, g) == If1(ts, Line(ts, i), Expr(ts, i + 1, TRUE), g)

(* decorators, then the function they are for *)
Declared(ts, i, ds, g) == IF At(ts, i) # "fn" \/ ~IsName(ts, i + 1) THEN Bad3("function")
                          ELSE LET f == Function(ts, i + 2, ts[i + 1].v, 0) IN One(<<"fnd", Prev(ts, f.i), f.n, ds, g, Line(ts, i + 1)>>, f.i)
Decos(ts, i, acc, g) == IF At(ts, i) = "@" THEN LET e == Expr(ts, i + 1, FALSE) IN Decos(ts, e.i, Append(acc, e.n), g) ELSE Declared(ts, i, acc, g)

(* structs and modules are numbered in the order of the text *)
RECURSIVE Counted(_,_), Fields(_,_,_,_), Methods(_,_,_,_,_), Natives(_,_,_,_)
Counted(ts, i) == IF i = 0 THEN 0 ELSE (IF At(ts, i) = "struct" \/ At(ts, i) = "module" THEN 1 ELSE 0) + Counted(ts, i - 1)
Fields(ts, i, acc, ls) == IF At(ts, i) = ")" THEN R(<<acc, ls>>, i + 1)
                          ELSE IF IsName(ts, i) THEN Fields(ts, IF At(ts, i + 1) = "," THEN i + 2 ELSE i + 1, Append(acc, ts[i].v), Append(ls, ts[i].l)) ELSE Bad3("field")
Method(ts, i, sid, module) == LET ps == ParamsAt(ts, i + 2, ~module) IN Function1(ts, NameAt(ts, i + 1), ps, Body(ts, ps.i), sid)
Methods(ts, i, acc, sid, module) ==
  IF At(ts, i) = "}" THEN R(acc, i + 1)
  ELSE IF At(ts, i) # "fn" \/ ~IsName(ts, i + 1) THEN Bad3("method")
  ELSE LET f == Method(ts, i, sid, module) IN Methods(ts, f.i, Append(acc, <<ts[i + 1].v, f.n, At(ts, i + 2) = "(" /\ At(ts, i + 3) = "self", FALSE>>), sid, module)
MethodsAt(ts, i, sid, module) == IF At(ts, i) = "{" THEN Methods(ts, i + 1, <<>>, sid, module) ELSE R(<<>>, i)
Struct2(ts, i, fs, ms, module) == One(<<"struct", Line(ts, i), Counted(ts, i), Line(ts, i + 1), fs[2], NameAt(ts, i + 1), fs[1], module, ms.n>>, ms.i)
Struct1(ts, i, fs, module) == IF fs.i = BAD THEN fs ELSE Struct2(ts, i, fs.n, MethodsAt(ts, fs.i, Counted(ts, i), module), module)
Struct(ts, i) == IF ~IsName(ts, i + 1) THEN Bad3("struct") ELSE IF At(ts, i) = "module" THEN Struct1(ts, i, R(<<<<>>, <<>>>>, i + 2), TRUE)
                 ELSE IF At(ts, i + 2) # "(" THEN Bad3("struct") ELSE Struct1(ts, i, Fields(ts, i + 3, <<>>, <<>>), FALSE)
Natives(ts, i, acc, m) ==
  IF At(ts, i) = "}" THEN R(acc, i + 1)
  ELSE IF At(ts, i) # "fn" \/ ~IsName(ts, i + 1) THEN Bad3("native")
  ELSE LET ps == ParamsAt(ts, i + 2, FALSE) IN Natives(ts, ps.i, Append(acc, <<ts[i + 1].v, <<"fn", Line(ts, i), ts[i + 1].v, ps.n, NONE, 0, m>>, FALSE, TRUE>>), m)
Native(ts, i) == IF At(ts, i + 1) # "module" \/ ~IsName(ts, i + 2) \/ At(ts, i + 3) # "{" THEN Bad3("native")
                 ELSE LET ms == Natives(ts, i + 4, <<>>, ts[i + 2].v) IN One(<<"native", Line(ts, i), Counted(ts, i + 1), Line(ts, i + 2), <<>>, ts[i + 2].v, <<>>, TRUE, ms.n>>, ms.i)

(* a single `*name` is no pattern of `for` *)
ForPat(p) == CASE p[1] = "rest" -> IF p[2] = "_" THEN <<"_">> ELSE <<"n", p[2]>>
               [] p[1] = "p" /\ Len(p[2]) = 1 /\ p[2][1][1] = "rest" -> IF p[2][1][2] = "_" THEN <<"_">> ELSE <<"n", p[2][1][2]>>
               [] OTHER -> p
For2(ts, p, e, b, x) == One(<<"for", Prev(ts, e.i), ForPat(p), e.n, b.n, x.n>>, x.i)
For1(ts, p, e, b) == For2(ts, p, e, b, ElseAt(ts, b.i))
While1(ts, l, c, b) == LET x == ElseAt(ts, b.i) IN One(<<"while", l, c, b.n, x.n>>, x.i)
Do1(ts, l, b, c) == LET x == ElseAt(ts, c.i) IN One(<<"dow", l, b, c.n, x.n>>, x.i)
Stmt(ts, i, g) ==
  LET k == At(ts, i) l == Line(ts, i) IN
  CASE k = "@" \/ (k = "fn" /\ IsName(ts, i + 1)) -> Decos(ts, i, <<>>, g)
    [] k = "return" -> IF At(ts, i + 1) = "}" THEN One(<<"return", l, NONE>>, i + 1) ELSE IF At(ts, i + 1) = ";" THEN One(<<"return", l, NONE>>, i + 2)
                       ELSE LET e == Expr(ts, i + 1, FALSE) IN One(<<"return", l, e.n>>, e.i)
    [] k = "let" -> Lets(ts, i + 1, <<>>, g)
    [] k = "if" -> OneOf(If(ts, i, g))
    [] k = "loop" -> LET b == Block(ts, i + 1) IN One(<<"loop", l, b.n>>, b.i)
    [] k = "while" -> LET c == Expr(ts, i + 1, FALSE) IN While1(ts, l, c.n, Block(ts, c.i))
    [] k = "do" -> LET b == Block(ts, i + 1) IN Do1(ts, l, b.n, IF At(ts, b.i) = "while" THEN Expr(ts, b.i + 1, FALSE) ELSE R(NONE, b.i))
    [] k = "for" -> LET p == BarePat(ts, i + 1) IN IF At(ts, p.i) # "in" THEN Bad3("for") ELSE LET e == Expr(ts, p.i + 1, FALSE) IN For1(ts, p.n, e, Block(ts, e.i))
    [] k = "break" -> One(<<"break", l>>, i + 1)
    [] k = "continue" -> One(<<"cont", l>>, i + 1)
    [] k = "assert" -> LET c == Expr(ts, i + 1, TRUE) IN
                       IF At(ts, c.i) = ":" THEN LET m == Expr(ts, c.i + 1, FALSE) IN One(<<"assert", Line(ts, i + 1), c.n, m.n>>, m.i) ELSE One(<<"assert", Line(ts, i + 1), c.n, NONE>>, c.i)
    [] k \in {"struct", "module"} -> Struct(ts, i)
    [] k = "native" -> Native(ts, i)
    [] OTHER -> LET e == Expr(ts, i, FALSE) IN One(<<"expr", l, e.n>>, e.i)

RECURSIVE Lined(_,_,_,_,_)
(* the pieces with their lines *)
Lined(cs, ts, j, at, l) == IF j > Len(ts) THEN <<>>
                           ELSE LET m == l + Breaks(cs, at, ts[j].a - 1) IN
                                <<[k |-> ts[j].k, v |-> ts[j].v, base |-> ts[j].base, l |-> m,
                                   nl |-> ts[j].nl \/ (ts[j].k = "str" /\ Breaks(cs, ts[j].a, ts[j].b) > 0)]>> \o Lined(cs, ts, j + 1, ts[j].a, m)
TokensOf(cs) == Lined(cs, Scan(cs), 1, 1, 1)
Program(ts) == LET b == Stmts(ts, 1, <<>>, TRUE) IN R(<<"blk", 1, b.n, FALSE>>, b.i)
(* is there no error in it *)
Whole1(ts, r) == r.i = Len(ts) + 1
=============================================================================
