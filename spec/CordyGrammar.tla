------------------------------ MODULE CordyGrammar ------------------------------
(***************************************************************************)
(* Which texts are programs, and which program a text is: CordyParse       *)
(* against the syntax trees the rest of the specification is given.        *)
(*   Progs[p]   src      the text                                          *)
(*     whole    is there a tree for it        nodes, root, structs: it     *)
(* A behaviour reads one text.  Its verdict is "ok", or "tool" where the   *)
(* two disagree (and nothing is said about the implementation then).       *)
(***************************************************************************)
EXTENDS CordyParse, CordyData, FiniteSets

VARIABLE s

NODES(k) == CASE k \in {"lit", "var", "exit", "empty", "varempty", "varname", "nop", "break", "cont"} -> {}
              [] k \in {"getf", "expr", "loop", "return"} -> {3}
              [] k \in {"un", "sec", "asg", "let"} -> {4}
              [] k \in {"and", "or", "comp", "idx", "assert"} -> {3, 4}
              [] k \in {"bin", "setf"} -> IF k = "bin" THEN {4, 5} ELSE {3, 5}
              [] k = "opasg" -> {5}
              [] k \in {"tern", "seti", "if", "while", "dow"} -> {3, 4, 5}
              [] k \in {"slc", "mkslc"} -> {3, 4, 5, 6}
              [] k = "opseti" -> {4, 5, 6}
              [] k = "opsetf" -> {4, 6}
              [] k = "for" -> {4, 5, 6}
              [] OTHER -> {}

RECURSIVE Eq(_,_,_), EqArgs(_,_,_), EqSeq(_,_,_), EqPs(_,_,_)
(* node i of the table is the tree e *)
EqArgs(ns, xs, es) == Len(xs) = Len(es) /\ \A j \in DOMAIN es : xs[j][2] = es[j][2] /\ Eq(ns, xs[j][1], es[j][1])
EqSeq(ns, xs, es) == Len(xs) = Len(es) /\ \A j \in DOMAIN es : Eq(ns, xs[j], es[j])
EqPs(ns, xs, es) == Len(xs) = Len(es) /\ \A j \in DOMAIN es : xs[j][1] = es[j][1] /\ xs[j][2] = es[j][2] /\ Eq(ns, xs[j][3], es[j][3])
EqMs(ns, xs, es) == Len(xs) = Len(es) /\ \A j \in DOMAIN es : xs[j][1] = es[j][1] /\ Eq(ns, xs[j][2], es[j][2]) /\ xs[j][3] = es[j][3] /\ xs[j][4] = es[j][4]
Single(e) == e[1] = "comma" /\ Len(e[3]) = 1 /\ ~e[4] /\ e[3][1][1] # "unroll"
EqLine(n, e) == n[1] = e[1] /\ n[2] = e[2]
EqNode(st, ns, n, e) ==
  CASE e[1] = "comma" -> n[1] = "mk" /\ n[2] = e[2] /\ n[3] = "vec" /\ EqArgs(ns, n[4], UnAll(e[3]))
    [] e[1] = "mk" -> EqLine(n, e) /\ n[3] = e[3] /\ EqArgs(ns, n[4], e[4])
    [] e[1] = "call" -> EqLine(n, e) /\ Eq(ns, n[3], e[3]) /\ EqArgs(ns, n[4], e[4])
    [] e[1] = "cmp" -> /\ EqLine(n, e) /\ Eq(ns, n[3], e[3]) /\ Len(n[4]) = Len(e[4])
                       /\ \A j \in DOMAIN e[4] : n[4][j][1] = e[4][j][1] /\ Eq(ns, n[4][j][2], e[4][j][2])
    [] e[1] = "pasg" -> EqLine(n, e) /\ n[3] = e[3] /\ EqSeq(ns, n[4], e[4]) /\ Eq(ns, n[5], e[5]) /\ n[6] = e[6] /\ n[7] = e[7]
    [] e[1] = "fn" -> EqLine(n, e) /\ n[3] = e[3] /\ EqPs(ns, n[4], e[4]) /\ Eq(ns, n[5], e[5]) /\ n[6] = e[6] /\ n[9] = e[7]
    [] e[1] = "blk" -> EqLine(n, e) /\ EqSeq(ns, n[3], e[3]) /\ n[4] = e[4]
    [] e[1] = "fnd" -> EqLine(n, e) /\ Eq(ns, n[3], e[3]) /\ EqSeq(ns, n[4], e[4]) /\ n[5] = e[5] /\ n[6] = e[6]
    [] e[1] \in {"struct", "native"} -> /\ EqLine(n, e) /\ n[3] = e[3] /\ n[4] = e[4] /\ n[5] = e[5]
                                        /\ n[3] \in DOMAIN st /\ st[n[3]].name = e[6] /\ st[n[3]].fields = e[7] /\ st[n[3]].module = e[8] /\ EqMs(ns, st[n[3]].methods, e[9])
    [] e[1] \in {"bad", "unroll", "none"} -> FALSE
    [] OTHER -> n[1] = e[1] /\ (e[1] # "cmp" => Len(n) = Len(e)) /\ \A j \in 2 .. Len(n) : IF j \in NODES(e[1]) THEN Eq(ns, n[j], e[j]) ELSE n[j] = e[j]
Eq(ns, i, e) == IF e[1] = "none" THEN i = 0
                ELSE IF Single(e) THEN Eq(ns, i, e[3][1])
                ELSE i # 0 /\ EqNode(Progs[s.pid].structs, ns, ns[i], e)

Bads(ts) == {i \in DOMAIN ts : ts[i].k \in {"err", "open"}}
Verdict(p, ts, r) ==
  LET whole == Bads(ts) = {} /\ Whole1(ts, r) IN
  IF whole # Progs[p].whole THEN <<"tool", IF whole THEN "the text is a program" ELSE "the text is not a program">>
  ELSE IF whole /\ ~Eq(Progs[p].nodes, Progs[p].root, r.n) THEN <<"tool", ToString(r.n)>>
  ELSE <<"ok", "">>

Judged(p, ts) == Verdict(p, ts, Program(ts))
Tell(p, v, n) == PrintT(<<"VERDICT", p, v, n>>)
Init == \E p \in DOMAIN Progs : s = [pid |-> p, m |-> "new", v |-> <<>>, n |-> 0]
One1(p, ts) == s' = [s EXCEPT !.m = "done", !.v = Judged(p, ts), !.n = Len(ts)]
Parse == s.m = "new" /\ One1(s.pid, TokensOf(CharsOf(Progs[s.pid].src))) /\ Tell(s.pid, s'.v, s'.n)
Next == Parse
View == <<s.pid, s.m>>
=============================================================================
