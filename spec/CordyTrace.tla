------------------------------ MODULE CordyTrace ------------------------------
(***************************************************************************)
(* Trace validation: runs the specified machine on every recorded program  *)
(* and judges the recorded behaviour.  One behaviour of this module is one *)
(* program execution; a state is K machine steps from its predecessor.     *)
(***************************************************************************)
EXTENDS CordyEval

VARIABLE s

K == 60
Fuel == Data.fuel

RECURSIVE RunN(_,_)
RunN(t, n) == IF n = 0 \/ t.m = "done" THEN t ELSE RunN(StepEv(t), n - 1)

(***************************************************************************)
(* With optimisation, an expression made only of literals which always     *)
(* fails may be reported by the compiler.  A program which was rejected is *)
(* accepted here if each of the reported errors is what some such          *)
(* expression of the program gives.                                        *)
(***************************************************************************)
ConstRun(p, i) == RunN([Start(p) EXCEPT !.x = i, !.ip = -1], 500)
RECURSIVE ConstNode(_,_), ConstBranch(_,_)
\* the branch taken by a conditional expression whose condition is constant
ConstBranch(p, n) ==
  LET c == ConstRun(p, n[3]) IN
  CASE c.m # "done" -> FALSE
    [] c.st = "error" -> TRUE
    [] OTHER -> ConstNode(p, IF Truthy(c.h, c.v) THEN n[4] ELSE n[5])
Reported(p, x) == \E e \in ScopeErrors(p) : e[2] = "Undeclared identifier: '" \o x \o "'" \/ e[2] = MTarget
ConstNode(p, i) ==
  LET n == Progs[p].nodes[i]  t == n[1] IN
  CASE t = "lit" -> TRUE
    [] t \in {"empty", "varempty", "varname"} -> TRUE     \* reported, and then taken for nil
    [] t = "var" -> IsOpName(n[3]) \/ (n[3] \in NATIVES /\ n[3] \notin {"print", "read", "read_line", "read_text", "write_text", "env", "argv", "monitor", "eval"})
    [] t = "un" -> ConstNode(p, n[4])
    [] t = "bin" -> ConstNode(p, n[4]) /\ ConstNode(p, n[5])
    [] t = "cmp" -> ConstNode(p, n[3]) /\ \A j \in DOMAIN n[4] : ConstNode(p, n[4][j][2])
    [] t \in {"and", "or"} -> ConstNode(p, n[3]) /\ ConstNode(p, n[4])
    [] t = "tern" -> ConstNode(p, n[3]) /\ ConstBranch(p, n)
    [] t = "comp" -> ConstNode(p, n[3]) /\ ConstNode(p, n[4])
    [] t = "sec" -> ConstNode(p, n[4])
    [] t = "call" -> ConstNode(p, n[3]) /\ \A j \in DOMAIN n[4] : ~n[4][j][2] /\ ConstNode(p, n[4][j][1])
    [] t = "asg" -> Reported(p, n[3])
    [] OTHER -> FALSE
(* a list display composed with anything, as a function, must have one element *)
ListCall(f) ==
  IF f[1] = "mk" /\ f[3] = "list" /\ Len(f[4]) # 1 /\ \A j \in DOMAIN f[4] : ~f[4][j][2]
  THEN {"ValueError: Evaluating an index must have len = 1, got len = " \o TLCStr(Len(f[4]))} ELSE {}
Composed(n) == CASE n[1] = "comp" -> n[4]
                 [] n[1] = "opasg" /\ n[3] = "." -> n[5]
                 [] n[1] \in {"opseti", "opsetf"} /\ n[3] = "." -> n[6]
                 [] OTHER -> 0
ComposedWith(ns) == {Composed(ns[i]) : i \in DOMAIN ns} \ {0}
ListCalls(p) == UNION {ListCall(Progs[p].nodes[i]) : i \in ComposedWith(Progs[p].nodes)}
(* what the constant expressions fail with, and whether a branch is dead *)
ConstNodes(p) == {i \in DOMAIN Progs[p].nodes : ConstNode(p, i)}
ConstFails(p) == {IF Progs[p].obs.lines THEN r.er ELSE r.v[2] \o "\n" : r \in {r \in {ConstRun(p, i) : i \in ConstNodes(p)} : r.st = "error"}} \cup ListCalls(p)
DeadBranch(p, cs) == \E i \in DOMAIN Progs[p].nodes : Progs[p].nodes[i][1] = "tern" /\ Progs[p].nodes[i][3] \in cs

(***************************************************************************)
(* The verdict on a program which is judged without being run: one which   *)
(* was rejected, one which has static errors, or a text which was only     *)
(* compiled.                                                               *)
(*   need   its static errors, as reports begin                            *)
(*   fails  with optimisation: what its constant expressions fail with     *)
(*   dead   with optimisation: there are branches which are never taken,   *)
(*          and are left out, and the undeclared names in them may be too  *)
(* `syn` says that the text is not of the syntax of the language at all.   *)
(* Every report must be well formed and lie within the text.               *)
(***************************************************************************)
Static(p) == IF Progs[p].syn THEN {} ELSE {e[2] \o "\n  at: line " \o e[1] \o " (<test>)\n" : e \in ScopeErrors(p)}
Reports(p, e) == LET o == Progs[p].obs  L == Progs[p].text IN
  IF o.st = "compile" THEN \A i \in DOMAIN o.errors : i \in DOMAIN o.at /\ o.at[i].trace = "" /\ WellFormed(L, Progs[p].eof, "<test>", o.errors[i], o.at[i])
  ELSE IF o.st = "error" /\ o.at # <<>>
  THEN IF e = 0 THEN WellFormed(L, Progs[p].eof, "<test>", o.rep, o.at[1]) ELSE WellFormed(Progs[p].evals[e].text, 0, "<eval>", o.rep, o.at[1])
  ELSE TRUE
(* the interpreter shows the errors of a rejected program, and does nothing *)
RECURSIVE Joined(_,_)
Joined(es, i) == IF i > Len(es) THEN "" ELSE es[i] \o "\n" \o Joined(es, i + 1)
Silent(o) == o.st = "compile" /\ o.cli # <<>> => o.cli = <<"", Joined(o.errors, 1)>>
Static2(o, es, syn, need, fails, dead) ==
  CASE o \notin {"ok", "compile"} -> IF Needed(need, dead) = {} THEN <<"run", "">> ELSE <<"accepted", ToString(need)>>
    [] o = "ok" -> IF syn THEN <<"accepted", "this is not of the syntax">> ELSE IF Needed(need, dead) = {} THEN <<"ok", "">> ELSE <<"accepted", ToString(need)>>
    [] o = "compile" /\ es = <<>> -> <<"compile", "rejected without an error">>
    [] o = "compile" /\ syn -> <<"ok", "">>
    [] OTHER -> IF Accounts(es, need, fails, dead) THEN <<"ok", "">> ELSE <<"compile", "the errors of the program are " \o ToString(need)>>
Static1(p, o, opt) == Static2(o.st, IF o.st = "compile" THEN o.errors ELSE <<>>, Progs[p].syn, Static(p), IF opt THEN ConstFails(p) ELSE {},
                              opt /\ DeadBranch(p, ConstNodes(p)))
LookedAt(t, v) ==
  IF v[1] = "run" THEN (IF Progs[t.pid].kind = "text" THEN [t EXCEPT !.m = "done", !.st = "looked", !.v = <<"noanswer", "the compiler gave no answer">>] ELSE [t EXCEPT !.m = "e"])
  ELSE [t EXCEPT !.m = "done", !.st = "looked", !.v = IF ~Silent(Obs(t)) THEN <<"effects", "the interpreter does more than to show the errors">>
                                                    ELSE IF v[1] = "ok" /\ ~Reports(t.pid, 0) THEN <<"report", "a report does not show a place of the text">> ELSE v]

Init == \E p \in DOMAIN Progs : s = [Start(p) EXCEPT !.m = "look"]
Judge(t) == IF t.st = "looked" THEN t.v
            ELSE IF t.st = "error" /\ Verdict(t)[1] = "ok" /\ ~Reports(t.pid, EvalOf(t, t.x)) THEN <<"report", "the report does not show a place of the program">>
            ELSE Verdict(t)
Say(t) == IF t.m = "done" THEN PrintT(<<"VERDICT", t.pid, Judge(t), t.nst>>)
          ELSE IF t.nst >= Fuel THEN PrintT(<<"VERDICT", t.pid, <<"fuel", "">>, t.nst>>) ELSE TRUE
Steps(n) == /\ s.m # "done" /\ s.nst < Fuel
            /\ s' = IF s.m = "look" THEN LookedAt(s, Static1(s.pid, Obs(s), Progs[s.pid].opt)) ELSE RunN(s, n)
            /\ Say(s')
Next == <<Steps(K)>>_s
Spec == Init /\ [][Next]_s
View == <<s.pid, s.nst, s.m>>

(* Invariants of every reachable state *)
CellsOk == \A x \in DOMAIN s.gl : s.gl[x] \in DOMAIN s.cells
HeapOk == \A a \in DOMAIN s.h :
            /\ s.h[a][1] = "dict" => Len(s.h[a][2]) = Len(s.h[a][3])
            /\ s.h[a][1] = "memo" => Len(s.h[a][3]) = Len(s.h[a][4])
            /\ s.h[a][1] = "struct" => Len(s.h[a][3]) = Len(StructInfo(s.pid, s.h[a][2]).fields)
OutOk == s.op <= Len(Obs(s).out)
=============================================================================
