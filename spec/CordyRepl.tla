------------------------------- MODULE CordyRepl -------------------------------
(***************************************************************************)
(* The interactive interpreter: one growing program, entered line by line. *)
(*                                                                         *)
(* A behaviour of this module is one session.  A state is a state of the   *)
(* machine of CordyMachine, and                                            *)
(*   ent   the entry which is being read or executed                       *)
(*   fs    the names of fields and methods declared by earlier entries     *)
(*   acc   the entries which were executed                                 *)
(*   m     also "prompt": an entry is about to be read                     *)
(* An entry is one or more lines:                                          *)
(*   kind  "prog"   a program, which is executed                           *)
(*         "syn"    something which is not of the syntax                   *)
(*         "open"   something which could be continued, but was not        *)
(*         "blank"  nothing         "rest"  the session ended in an entry  *)
(*   open  for each line but the last: the text so far can be continued    *)
(*   from, to   the lines of the session       text   the same             *)
(*   root, sids the program, and the structs it declares                   *)
(*   names      the global variables it declares                           *)
(*   echo       does it end in an expression                               *)
(*   reps       how what was shown is to be read as reports, untrusted     *)
(* obs.steps: for every line the prompt, the number of characters printed  *)
(* up to the end of it, and whether the session ended.                     *)
(***************************************************************************)
EXTENDS CordyEval

VARIABLE s

K == 60
Fuel == Data.fuel
FILE == "<stdin>"

Entries(t) == Progs[t.pid].entries
Entry(t) == Entries(t)[t.ent]
Steps_(t) == Obs(t).steps
Upto(t, i) == IF i = 0 THEN 0 ELSE Steps_(t)[i].upto
Bad1(t, kind, what) == [t EXCEPT !.m = "done", !.st = "judged", !.v = <<kind, what>>]
Shown(t) == SubSeq(Obs(t).out, t.op + 1, Upto(t, Entry(t).to))

(***************************************************************************)
(* Reading: the prompt says whether an entry is begun or continued, and an *)
(* entry is continued only if it can be.                                   *)
(***************************************************************************)
Prompted(t) ==
  LET e == Entry(t) IN
  \A i \in e.from .. e.to :
     /\ Steps_(t)[i].prompt = (IF i = e.from THEN ">>> " ELSE "... ")
     /\ (i < e.to \/ e.kind = "rest") => Steps_(t)[i].upto = Upto(t, e.from - 1) /\ Steps_(t)[i].res = "ok"
     /\ i < e.to => e.open[i - e.from + 1]

Next1(t) == [t EXCEPT !.m = "prompt", !.ent = t.ent + 1, !.op = Upto(t, Entry(t).to), !.k = <<>>, !.env = EMPTYMAP, !.st = "", !.er = ""]
Goes(t) == Steps_(t)[Entry(t).to].res = "ok"
(* after an entry: nothing is left to be shown, and the session goes on *)
Leave1(t) == IF Shown(t) # "" THEN Bad1(t, "output", "more was printed than expected")
             ELSE IF ~Goes(t) THEN Bad1(t, "status", "the session goes on after this entry")
             ELSE Next1(t)

(***************************************************************************)
(* Rejected entries show their errors, and nothing of them remains.        *)
(***************************************************************************)
RECURSIVE Shows(_,_)
Shows(reps, i) == IF i > Len(reps) THEN "" ELSE reps[i].rep \o "\n" \o Shows(reps, i + 1)
Readable(t, reps) == /\ reps # <<>>
                     /\ Shows(reps, 1) = Shown(t)
                     /\ \A i \in DOMAIN reps : reps[i].at.trace = ""
                                               /\ WellFormed(Entry(t).text, Entry(t).eof, FILE, reps[i].rep, reps[i].at)
RECURSIVE SeqFrom(_)
SeqFrom(xs) == IF xs = {} THEN <<>> ELSE LET x == CHOOSE x \in xs : TRUE IN <<x>> \o SeqFrom(xs \ {x})
Static(t) == {e[2] \o "\n  at: line " \o e[1] \o " (" \o FILE \o ")\n" : e \in ScopeErrorsOf(t.pid, Entry(t).root, SeqFrom(DOMAIN t.gl), t.fs)}
Begins(reps, f) == \E i \in DOMAIN reps : StartsWith(reps[i].rep, f)
MNames == {"Undeclared identifier: ", "Duplicate definition", "Name for variable", "Unresolved reference", "The left hand side", "Duplicate field", "Invalid ", "'struct' statements"}
Reject(t, reps, need) ==
  IF ~Readable(t, reps) THEN Bad1(t, "report", "the entry is to be rejected, with reports on its lines; errors: " \o ToString(need))
  ELSE IF need = {} THEN (IF Entry(t).kind = "open" /\ ~\E f \in MNames : Begins(reps, f) THEN Bad1(t, "report", "the entry is unfinished") ELSE IF Goes(t) THEN Next1(t) ELSE Bad1(t, "status", "the session goes on"))
  ELSE IF Accounts([i \in DOMAIN reps |-> reps[i].rep], need, {}, FALSE)
       THEN (IF Goes(t) THEN Next1(t) ELSE Bad1(t, "status", "the session goes on"))
  ELSE Bad1(t, "compile", "the errors of the entry are " \o ToString(need))

Run(t) == [t EXCEPT !.m = "e", !.acc = t.acc \cup {t.ent}, !.x = Entry(t).root, !.v = Nil, !.fs = t.fs \cup UNION {MembersOf(t.pid, Entry(t).sids[i]) : i \in DOMAIN Entry(t).sids}]
Prompt(t, need) == IF need # {} THEN Reject(t, Entry(t).reps, need) ELSE Run(t)
Read(t) ==
  IF t.ent > Len(Entries(t)) THEN Bad1(t, "ok", "")
  ELSE IF Obs(t).st \notin {"crash", "hang"} /\ ~Prompted(t) THEN Bad1(t, "prompt", "the prompts of the entry at line " \o TLCStr(Entry(t).from))
  ELSE CASE Entry(t).kind = "prog" -> Prompt(t, Static(t))
         [] Entry(t).kind = "blank" -> Leave1(t)
         [] Entry(t).kind = "rest" -> Bad1(t, "ok", "")
         [] OTHER -> Reject(t, Entry(t).reps, {})

(***************************************************************************)
(* Executed entries: the value of a last expression is shown; after an     *)
(* error the global variables which were not reached are nil.              *)
(***************************************************************************)
Finish(t) ==
  IF ~Entry(t).echo THEN Leave1(t)
  ELSE LET u == Emit(t, StrOf(t.pid, t.h, t.v) \o "\n") IN IF u.m = "done" THEN u ELSE Leave1(u)
(* the entry a node belongs to *)
Home(t, nd) == Entries(t)[CHOOSE e \in 1 .. t.ent : Entries(t)[e].kind = "prog" /\ Entries(t)[e].first <= nd /\ nd <= Entries(t)[e].last]
TextOf(t, nd) == IF EvalOf(t, nd) = 0 THEN Home(t, nd).text ELSE Evals(t)[EvalOf(t, nd)].text
RECURSIVE Missing(_,_,_)
Missing(t, xs, i) == IF i > Len(xs) THEN t
                     ELSE IF xs[i] \in DOMAIN t.gl THEN Missing(t, xs, i + 1) ELSE Missing(Declare(t, xs[i], Nil, TRUE), xs, i + 1)
ErrText(L, t, r) == ReportText(L, FileOf(t, t.x), [r EXCEPT !.msg = t.v[2], !.trace = CallTrace(t, t.x)])
Failed2(t, L, r) ==
  IF r.a = N(t, t.x)[2] /\ Inside(L, r) /\ Shown(t) = ErrText(L, t, r) \o "\n"
  THEN (IF Goes(t) THEN Next1(Missing(t, Entry(t).names, 1)) ELSE Bad1(t, "status", "the session goes on after an error"))
  ELSE Bad1(t, "error", t.er)
Failed(t) == Failed2(t, TextOf(t, t.x), Entry(t).fail)
Ended(t) ==
  CASE t.st = "exit" -> IF Shown(t) = "" /\ Steps_(t)[Entry(t).to].res = "exit" /\ Entry(t).to = Len(Steps_(t)) THEN Bad1(t, "ok", "")
                        ELSE Bad1(t, "status", "the session ends here")
    [] t.st = "error" -> Failed(t)
    [] t.st = "open" -> Bad1(t, "fuel", "")
    [] OTHER -> Bad1(t, t.st, t.er)

Crashed(t) == Obs(t).st \in {"crash", "hang"}
ReplStep(t) ==
  CASE t.m = "prompt" -> Read(t)
    [] t.m = "v" /\ t.k = <<>> -> Finish(t)
    [] t.m = "done" /\ t.st # "judged" -> Ended(t)
    [] OTHER -> StepEv(t)

RECURSIVE RunN(_,_)
RunN(t, n) == IF n = 0 \/ (t.m = "done" /\ t.st = "judged") THEN t ELSE RunN(ReplStep(t), n - 1)

StartRepl(p) == [pid |-> p, m |-> "prompt", x |-> 0, v |-> Nil, env |-> EMPTYMAP, k |-> <<>>, cells |-> <<>>,
                 h |-> <<>>, gl |-> EMPTYMAP, op |-> 0, fi |-> 0, ip |-> 0, st |-> "", er |-> "", nst |-> 0, ent |-> 1, fs |-> {}, acc |-> {}]
Over(t) == t.m = "done" /\ t.st = "judged"
Init == \E p \in DOMAIN Progs : s = StartRepl(p)
Say(t) == IF Over(t) THEN PrintT(<<"VERDICT", t.pid, t.v, t.nst>>)
          ELSE IF t.nst >= Fuel THEN PrintT(<<"VERDICT", t.pid, <<"fuel", "">>, t.nst>>) ELSE TRUE
Steps(n) == /\ ~Over(s) /\ s.nst < Fuel
         /\ s' = RunN(s, n)
         /\ Say(s')
Next == <<Steps(K)>>_s
View == <<s.pid, s.nst, s.m, s.ent, s.st>>

CellsOk == \A x \in DOMAIN s.gl : s.gl[x] \in DOMAIN s.cells
(* an entry which was executed, also one which failed, has declared all of its global variables *)
Whole == s.m = "prompt" => \A e \in s.acc : {Entries(s)[e].names[i] : i \in DOMAIN Entries(s)[e].names} \subseteq DOMAIN s.gl
=============================================================================
