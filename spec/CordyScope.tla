------------------------------ MODULE CordyScope ------------------------------
(***************************************************************************)
(* What the compiler must reject: the static rules of the language.        *)
(*                                                                         *)
(* A walk over a program in the order in which it is read.  It threads     *)
(*   fr    one sequence of variables <<name, depth, visible>> per function *)
(*         being read, the first of them for the code outside functions    *)
(*   errs  the errors so far: <<lines, message>>                           *)
(*   late  names used in a function before anything of that name is        *)
(*         declared: [x, l, store, in, me, fb]                             *)
(*   fdec, fref  field names declared / referred to (with the line)        *)
(*   ms    the methods declared so far of the struct or module being read  *)
(* and carries down                                                        *)
(*   sd    the depth of scopes      lp   inside a loop (of this function)  *)
(*   sid   the struct or module being read, 0 if none                      *)
(*   df    in a default value of a parameter, not in a function within it  *)
(*   root  the node of the whole text                                      *)
(***************************************************************************)
EXTENDS CordyMachine

MNative(x) == "Name for variable '" \o x \o "' conflicts with the native function by the same name"
MDup(x)    == "Duplicate definition of variable '" \o x \o "' in the same scope"
MUndecl(x) == "Undeclared identifier: '" \o x \o "'"
MSelf      == "Unresolved reference to a 'self' outside of an instance method"
MTarget    == "The left hand side is not a valid assignment target"
MFieldDup(x) == "Duplicate field name: '" \o x \o "'"
MField(x)  == "Invalid or unknown field name: '" \o x \o "'"
MBreak     == "Invalid 'break' statement outside of an enclosing loop"
MContinue  == "Invalid 'continue' statement outside of an enclosing loop"
MReturn    == "Invalid 'return' statement outside of an enclosing function"
MEmpty     == "Expected an expression, got '_' instead"
MVarEmpty  == "Expected an expression, got '*_' instead"
MVarName   == "Expected an expression terminal, got '*' token instead"
MStruct    == "'struct' statements can only be present in global scope"

(* a place in the text, by its lines *)
LOCAL At(l, l2) == TLCStr(l) \o (IF l2 = l THEN "" ELSE " - " \o TLCStr(l2))
LOCAL BadIn(w, l, l2, m) == [w EXCEPT !.errs = w.errs \cup {<<At(l, l2), m>>}]
LOCAL Bad(w, l, m) == BadIn(w, l, l, m)
LOCAL Fr(w) == w.fr[Len(w.fr)]
LOCAL InFn(w) == Len(w.fr) > 1

(* is x visible as a variable of this function, or captured from another; *)
(* variables at depth 0 outside functions are the global ones             *)
LOCAL Visible(w, x) ==
  \/ \E i \in DOMAIN Fr(w) : Fr(w)[i][1] = x /\ Fr(w)[i][3]
  \/ \E j \in 1 .. Len(w.fr) - 1 : \E i \in DOMAIN w.fr[j] :
        w.fr[j][i][1] = x /\ w.fr[j][i][3] /\ (j # 1 \/ w.fr[j][i][2] # 0)
LOCAL GlobalVisible(w, x) == \E i \in DOMAIN w.fr[1] : w.fr[1][i][1] = x /\ w.fr[1][i][2] = 0 /\ w.fr[1][i][3]

LOCAL UseSelf(w, c, l, store, field) ==
  IF ~Visible(w, "self") THEN Bad(w, l, MSelf)
  ELSE IF store /\ ~field THEN Bad(w, l, MTarget) ELSE w
LOCAL LateUse(w, c, x, l, store, fb) ==
  [w EXCEPT !.late = w.late \cup {[x |-> x, l |-> l, store |-> store, in |-> c.sid # 0, me |-> Visible(w, "self"), fb |-> fb, d |-> IF c.df THEN Len(w.fr) ELSE 0]}]
(* the name x is used (or assigned to) on line l *)
LOCAL Use(p, w, c, x, l, store) ==
  CASE x = "self" -> UseSelf(w, c, l, store, FALSE)
    [] x \in NATIVES -> IF store THEN Bad(w, l, MTarget) ELSE w
    [] x # "self" /\ x \notin NATIVES /\ Visible(w, x) -> w
    [] OTHER ->
       LET st == StructInfo(p, c.sid)
           inst == c.sid # 0 /\ InFn(w) /\ \E m \in w.ms : m[1] = x /\ m[2]
           field == c.sid # 0 /\ InFn(w) /\ ~st.module /\ \E i \in DOMAIN st.fields : st.fields[i] = x
           meth == c.sid # 0 /\ InFn(w) /\ \E m \in w.ms : m[1] = x /\ ~m[2]
       IN IF inst \/ field THEN UseSelf(w, c, l, store, field /\ ~inst)
          ELSE IF meth THEN (IF store THEN Bad(w, l, MTarget) ELSE w)
          ELSE IF InFn(w) /\ GlobalVisible(w, x) THEN (IF c.sid = 0 THEN w ELSE LateUse(w, c, x, l, store, TRUE))
          ELSE IF InFn(w) THEN LateUse(w, c, x, l, store, FALSE)
          ELSE Bad(w, l, MUndecl(x))

(* a variable x is declared; it is visible only after its initialiser *)
LOCAL Decl(w, c, x, l) ==
  CASE x \in NATIVES -> Bad(w, l, MNative(x))
    [] x \notin NATIVES /\ \E i \in DOMAIN Fr(w) : Fr(w)[i][1] = x /\ Fr(w)[i][2] = c.sd -> Bad(w, l, MDup(x))
    [] OTHER ->
       LET w2 == [w EXCEPT !.fr[Len(w.fr)] = Append(@, <<x, c.sd, FALSE>>)] IN
       IF Len(w.fr) = 1 /\ c.sd = 0 THEN [w2 EXCEPT !.late = {b \in w.late : b.x # x}] ELSE w2
LOCAL Init_(w, c, xs) ==
  [w EXCEPT !.fr[Len(w.fr)] = [i \in DOMAIN @ |->
     IF @[i][2] = c.sd /\ \E j \in DOMAIN xs : xs[j] = @[i][1] THEN <<@[i][1], @[i][2], TRUE>> ELSE @[i]]]
LOCAL SelfVar(w, c) == [w EXCEPT !.fr[Len(w.fr)] = Append(@, <<"self", c.sd, TRUE>>)]
RECURSIVE DeclAll(_,_,_,_,_)
DeclAll(w, c, xs, l, i) == IF i > Len(xs) THEN w ELSE DeclAll(Decl(w, c, xs[i], l), c, xs, l, i + 1)
RECURSIVE PatNames(_), PatNamesOf(_,_)
PatNames(pt) == CASE pt[1] = "n" -> <<pt[2]>>
                  [] pt[1] = "rest" -> IF pt[2] = "_" THEN <<>> ELSE <<pt[2]>>
                  [] pt[1] = "p" -> PatNamesOf(pt[2], 1)
                  [] OTHER -> <<>>
PatNamesOf(ps, i) == IF i > Len(ps) THEN <<>> ELSE PatNames(ps[i]) \o PatNamesOf(ps, i + 1)
RECURSIVE PatFields(_), PatFieldsOf(_,_)
PatFields(pt) == CASE pt[1] = "tf" -> <<pt[3]>> [] pt[1] = "p" -> PatFieldsOf(pt[2], 1) [] OTHER -> <<>>
PatFieldsOf(ps, i) == IF i > Len(ps) THEN <<>> ELSE PatFields(ps[i]) \o PatFieldsOf(ps, i + 1)

(* scopes and functions *)
LOCAL Leave(w, sd) == [w EXCEPT !.fr[Len(w.fr)] = SelectSeq(@, LAMBDA e : e[2] < sd)]
LOCAL FieldUse(w, x, l) == IF \E f \in w.fref : f[1] = x THEN w ELSE [w EXCEPT !.fref = w.fref \cup {<<x, l>>}]
RECURSIVE UseAll(_,_,_,_,_,_), FieldUseAll(_,_,_,_)
UseAll(p, w, c, xs, l, i) == IF i > Len(xs) THEN w ELSE UseAll(p, Use(p, w, c, xs[i], l[i], TRUE), c, xs, l, i + 1)
FieldUseAll(w, fs, l, i) == IF i > Len(fs) THEN w ELSE FieldUseAll(FieldUse(w, fs[i], l[i]), fs, l, i + 1)

LOCAL Down(c) == [c EXCEPT !.sd = c.sd + 1]
(* which parts of a node are expressions, in the order in which they are read *)
LOCAL Parts(n) ==
  CASE n[1] \in {"un", "sec"} -> <<n[4]>>
    [] n[1] = "bin" -> <<n[4], n[5]>>
    [] n[1] \in {"and", "or", "comp", "idx", "assert"} -> <<n[3], n[4]>>
    [] n[1] \in {"tern", "seti"} -> <<n[3], n[4], n[5]>>
    [] n[1] = "slc" -> <<n[3], n[4], n[5], n[6]>>
    [] n[1] = "mkslc" -> <<n[4], n[5], n[6]>>
    [] n[1] \in {"expr", "return", "unroll"} -> <<n[3]>>
    [] n[1] = "opseti" -> <<n[4], n[5], n[6]>>
    [] n[1] = "mk" -> [i \in DOMAIN n[4] |-> n[4][i][1]]
    [] n[1] = "call" -> <<n[3]>> \o [i \in DOMAIN n[4] |-> n[4][i][1]]
    [] n[1] = "cmp" -> <<n[3]>> \o [i \in DOMAIN n[4] |-> n[4][i][2]]
    [] OTHER -> <<>>

RECURSIVE Walk(_,_,_,_), WalkAll(_,_,_,_,_), SDefaults(_,_,_,_,_), Body(_,_,_,_), Methods(_,_,_,_,_), Fields(_,_,_,_,_)
WalkAll(p, xs, c, w, i) == IF i > Len(xs) THEN w ELSE WalkAll(p, xs, c, Walk(p, xs[i], c, w), i + 1)
(* default values belong to the function, but are read before its parameters *)
SDefaults(p, ps, c, w, i) == IF i > Len(ps) THEN w ELSE SDefaults(p, ps, c, Walk(p, ps[i][3], c, w), i + 1)
LOCAL ReadDefaults(p, f, c, w) ==
  LET w2 == SDefaults(p, f[4], [c EXCEPT !.lp = FALSE, !.df = TRUE], [w EXCEPT !.fr = Append(w.fr, <<>>)], 1)
  IN [w2 EXCEPT !.fr = w.fr]
(* what a default value refers to directly is looked for after the function's own name was declared *)
LOCAL Own(w, x) == {b \in w.late : b.x = x /\ b.d = Len(w.fr) + 1}
LOCAL Back(w, own) == [w EXCEPT !.late = {[b EXCEPT !.d = 0] : b \in w.late \cup own}]
LOCAL SParams(w, c, f) ==
  LET ps == f[4]
      me == Len(ps) > 0 /\ ps[1][1] = <<"n", "self">>
      rest == IF me THEN Tail(ps) ELSE ps
      \* parameters which are names come before the names inside of patterns
      plain == SelectSeq(rest, LAMBDA q : q[1][1] # "p")
      pats == SelectSeq(rest, LAMBDA q : q[1][1] = "p")
      xs == PatNamesOf([i \in DOMAIN plain |-> plain[i][1]], 1) \o PatNamesOf([i \in DOMAIN pats |-> pats[i][1]], 1)
      w1 == IF me THEN SelfVar(w, c) ELSE w
  IN Init_(DeclAll(w1, c, xs, f[2], 1), c, xs)
Body(p, f, c, w) ==
  LET c1 == [c EXCEPT !.sd = c.sd + 1, !.lp = FALSE, !.df = FALSE]
      w1 == SParams([w EXCEPT !.fr = Append(w.fr, <<>>)], c1, f)
      w2 == IF f[5] = 0 THEN w1 ELSE Walk(p, f[5], c1, w1)
  IN [w2 EXCEPT !.fr = SubSeq(w2.fr, 1, Len(w2.fr) - 1)]
LOCAL BindLate(w, x, inst) ==
  LET bs == {b \in w.late : b.x = x /\ b.in}
      es == {<<At(b.l, b.l), IF b.store THEN MTarget ELSE MSelf>> : b \in {b \in bs : b.store \/ (inst /\ ~b.me)}}
  IN [w EXCEPT !.late = w.late \ bs, !.errs = w.errs \cup es]
Methods(p, st, c, w, i) ==
  IF i > Len(st.methods) THEN w
  ELSE LET m == st.methods[i]  f == Progs[p].nodes[m[2]]
           w1 == ReadDefaults(p, f, c, w)
           w2 == IF (\E k \in w.ms : k[1] = m[1]) \/ (\E k \in DOMAIN st.fields : st.fields[k] = m[1]) THEN Bad(w1, f[2], MFieldDup(m[1])) ELSE w1
           w3 == BindLate([w2 EXCEPT !.ms = {k \in w2.ms : k[1] # m[1]} \cup {<<m[1], m[3]>>}, !.fdec = w2.fdec \cup {m[1]}], m[1], m[3])
       IN Methods(p, st, c, Body(p, f, c, Back(w3, Own(w1, m[1]))), i + 1)
Fields(st, c, w, l, i) ==
  IF i > Len(st.fields) THEN w
  ELSE LET x == st.fields[i] IN
       Fields(st, c, IF \E j \in 1 .. i - 1 : st.fields[j] = x THEN Bad(w, l[i], MFieldDup(x)) ELSE [w EXCEPT !.fdec = w.fdec \cup {x}], l, i + 1)

Walk(p, i, c, w) ==
  IF i = 0 THEN w ELSE
  LET n == Progs[p].nodes[i]  t == n[1]  l == n[2] IN
  CASE t = "var" -> IF IsOpName(n[3]) THEN w ELSE Use(p, w, c, n[3], l, FALSE)
    [] t = "asg" -> Walk(p, n[4], c, Use(p, w, c, n[3], n[5], TRUE))
    [] t = "opasg" -> Walk(p, n[5], c, Use(p, w, c, n[4], n[6], TRUE))
    [] t = "pasg" -> Walk(p, n[5], c, WalkAll(p, n[4], c, FieldUseAll(UseAll(p, w, c, PatNames(n[3]), n[6], 1), PatFields(n[3]), n[7], 1), 1))
    [] t = "let" -> LET xs == IF n[3][1] = "p" /\ n[4] = 0 THEN n[3][2] ELSE PatNames(n[3])
                        w1 == DeclAll(w, c, xs, n[6], 1)
                    IN Init_(Walk(p, n[4], c, w1), c, xs)
    [] t = "empty" -> Bad(w, l, MEmpty)
    [] t = "varempty" -> BadIn(w, l, n[3], MVarEmpty)
    [] t = "varname" -> BadIn(Use(p, w, c, n[3], n[4], FALSE), l, n[4], MVarName)
    [] t = "lit" -> IF n[3][1] = "getf" THEN FieldUse(w, n[3][2], n[4]) ELSE w
    [] t = "getf" -> FieldUse(Walk(p, n[3], c, w), n[4], n[5])
    [] t = "setf" -> Walk(p, n[5], c, FieldUse(Walk(p, n[3], c, w), n[4], n[6]))
    [] t = "opsetf" -> Walk(p, n[6], c, FieldUse(Walk(p, n[4], c, w), n[5], n[7]))
    [] t = "fn" -> Body(p, n, c, Back(ReadDefaults(p, n, c, w), {}))
    [] t = "fnd" -> LET f == Progs[p].nodes[n[3]]
                        w1 == WalkAll(p, n[4], c, w, 1)
                        wd == ReadDefaults(p, f, c, w1)
                        w2 == Init_(Decl(wd, c, f[3], n[6]), c, <<f[3]>>)
                    IN Body(p, f, c, Back(w2, Own(wd, f[3])))
    [] t = "blk" -> LET c1 == IF i = c.root THEN c ELSE Down(c)
                        w1 == WalkAll(p, n[3], c1, w, 1)
                    IN IF i = c.root THEN w1 ELSE Leave(w1, c1.sd)
    [] t = "if" -> WalkAll(p, <<n[3], n[4], n[5]>>, c, w, 1)
    [] t = "loop" -> Walk(p, n[3], [c EXCEPT !.lp = TRUE], w)
    [] t = "while" -> Walk(p, n[5], c, WalkAll(p, <<n[3], n[4]>>, [c EXCEPT !.lp = TRUE], w, 1))
    [] t = "dow" -> Walk(p, n[5], c, WalkAll(p, <<n[3], n[4]>>, [c EXCEPT !.lp = TRUE], w, 1))
    [] t = "for" -> LET c1 == Down(c)
                        xs == PatNames(n[3])
                        w1 == Walk(p, n[4], c1, DeclAll(w, c1, xs, l, 1))
                        w2 == Walk(p, n[5], [c1 EXCEPT !.lp = TRUE], Init_(w1, c1, xs))
                    IN Walk(p, n[6], c, Leave(w2, c1.sd))
    [] t = "return" -> Walk(p, n[3], c, IF InFn(w) THEN w ELSE Bad(w, l, MReturn))
    [] t = "break" -> IF c.lp THEN w ELSE Bad(w, l, MBreak)
    [] t = "cont" -> IF c.lp THEN w ELSE Bad(w, l, MContinue)
    [] t \in {"struct", "native"} ->
         LET st == StructInfo(p, n[3])
             w1 == IF InFn(w) \/ c.sd # 0 THEN Bad(w, l, MStruct) ELSE w
             w2 == Init_(Decl(w1, c, st.name, n[4]), c, <<st.name>>)
             w3 == Methods(p, st, [c EXCEPT !.sid = n[3]], Fields(st, c, [w2 EXCEPT !.ms = {}], n[5], 1), 1)
         IN [w3 EXCEPT !.ms = w.ms, !.late = {[b EXCEPT !.in = FALSE] : b \in w3.late}]
    [] OTHER -> WalkAll(p, Parts(n), c, w, 1)

(* the errors of the part of program p at node root, where gs are declared *)
(* global variables and fs the names of fields and methods already         *)
ScopeErrorsOf(p, root, gs, fs) ==
  LET c == [sd |-> 0, lp |-> FALSE, df |-> FALSE, sid |-> 0, root |-> root]
      w0 == [fr |-> <<[i \in DOMAIN gs |-> <<gs[i], 0, TRUE>>]>>, errs |-> {}, late |-> {}, fdec |-> fs, fref |-> {}, ms |-> {}]
      w == Walk(p, root, c, w0)
  IN w.errs \cup {<<At(b.l, b.l), MUndecl(b.x)>> : b \in {b \in w.late : ~b.fb}}
            \cup {<<At(f[2], f[2]), MField(f[1])>> : f \in {f \in w.fref : f[1] \notin w.fdec}}
ScopeErrors(p) == ScopeErrorsOf(p, Progs[p].root, <<>>, {})

(***************************************************************************)
(* The errors `es` which were reported account for the static errors       *)
(* `need`, as reports begin: nothing else is reported, and none is missed. *)
(*   fails  what constant expressions fail with, if they were evaluated    *)
(*   dead   there are branches which are never taken, and are left out,    *)
(*          and the undeclared names in them may be too                    *)
(***************************************************************************)
Named(es, f) == \E i \in DOMAIN es : StartsWith(es[i], f)
(* an assignment to an undeclared name is dropped, with a misplaced `_` in it *)
Needed(need, dead) ==
  LET un == {f \in need : StartsWith(f, "Undeclared identifier")} IN
  {f \in need : ~(f \in un /\ dead) /\ ~(un # {} /\ StartsWith(f, "Expected an expression"))}
Explained(e, need, fails) == IF \E f \in need : StartsWith(e, f) THEN TRUE ELSE \E f \in fails : StartsWith(e, f)
Accounts(es, need, fails, dead) ==
  \* in a struct at a wrong place, names mean nothing
  IF \E f \in need : StartsWith(f, MStruct) THEN \A f \in need : StartsWith(f, MStruct) => Named(es, f)
  ELSE /\ \A i \in DOMAIN es : Explained(es[i], need, fails)
       \* an assignment with an impossible target is dropped, with what else is wrong in it
       /\ (IF Named(es, MTarget) THEN TRUE ELSE \A f \in Needed(need, dead) : Named(es, f))
=============================================================================
