------------------------------- MODULE CordyEval -------------------------------
(***************************************************************************)
(* eval: the text is one expression, which sees the native functions but   *)
(* no name of the program, is executed like the body of a function, and    *)
(* has errors with places in the text.  A text which is to be rejected     *)
(* fails the program with the errors it has.                               *)
(*                                                                         *)
(* Progs[p].evals are the texts whose trees are given:                     *)
(*   src   the text         text   its lines      eof   the last with code *)
(*   syn   it is not of the syntax      root   its tree                    *)
(*   from, to   the nodes of the tree                                      *)
(* A text which is not among them is asked for: the run ends in "ask".     *)
(***************************************************************************)
EXTENDS CordyScope, CordyReport

Evals(s) == Prog(s).evals
EvalIx(s, t) == LET es == {i \in DOMAIN Evals(s) : Evals(s)[i].src = t} IN IF es = {} THEN 0 ELSE CHOOSE i \in es : TRUE
(* the names of all fields and methods: an interactive session knows those entered so far *)
MembersOf(p, i) == LET st == StructInfo(p, i) IN {st.fields[j] : j \in DOMAIN st.fields} \cup {st.methods[j][1] : j \in DOMAIN st.methods}
FieldNames(s) == IF "fs" \in DOMAIN s THEN s.fs ELSE UNION {MembersOf(s.pid, i) : i \in DOMAIN Prog(s).structs}

(* how the recorded error is to be read as errors of a text, untrusted *)
Asides(s) == IF "entries" \in DOMAIN Prog(s) THEN Prog(s).entries[s.ent].asides ELSE Obs(s).asides
RECURSIVE Chain(_,_)
Chain(reps, i) == IF i > Len(reps) THEN "" ELSE "\n" \o reps[i].rep \o Chain(reps, i + 1)
Refuse(s, e, need, reps) ==
  IF /\ reps # <<>>
     /\ \A i \in DOMAIN reps : reps[i].at.trace = "" /\ WellFormed(e.text, e.eof, "<eval>", reps[i].rep, reps[i].at)
     /\ IF e.syn THEN TRUE ELSE Accounts([i \in DOMAIN reps |-> reps[i].rep], need, {}, FALSE)
  THEN Err(s, s.x, "Encountered compilation error(s) within 'eval':\n" \o Chain(reps, 1))
  ELSE Done(s, "refused", "a text is to be rejected by eval: " \o ToString(need))
Entered(s, e) == EvP(s, <<"ret", s.x, s.env, Nil>>, e.root)
Compiled(s, e, need) == IF need # {} THEN Refuse(s, e, need, Asides(s)) ELSE [Entered(s, e) EXCEPT !.env = EMPTYMAP]
EvalStep2(s, e) ==
  IF e.syn THEN Refuse(s, e, {}, Asides(s))
  ELSE Compiled(s, e, {m[2] \o "\n  at: line " \o m[1] \o " (<eval>)\n" : m \in ScopeErrorsOf(s.pid, e.root, <<>>, FieldNames(s))})
EvalStep(s) == IF EvalIx(s, s.v[2]) = 0 THEN Done(s, "ask", s.v[2]) ELSE EvalStep2(s, Evals(s)[EvalIx(s, s.v[2])])
StepEv(s) == IF s.m = "eval" THEN EvalStep(s) ELSE Step(s)
=============================================================================
