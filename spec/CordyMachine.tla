----------------------------- MODULE CordyMachine -----------------------------
(***************************************************************************)
(* The Cordy language as a state machine: a small-step semantics.          *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   pid    the program                m     "e" evaluate node x,          *)
(*   x, v   node / value                     "v" return v to the top frame *)
(*   env    local name -> variable           "done" finished               *)
(*   k      stack of frames, <<top, rest>> or <<>>                         *)
(*   cells  the variables' values      gl    global name -> variable       *)
(*   h      the heap of collections    ip    characters of input consumed  *)
(*   op     characters printed         fi    foreign calls made            *)
(*   st     how the program ended      er    the error report              *)
(*   nst    steps taken                                                    *)
(*                                                                         *)
(* What the program prints, and the foreign calls it makes, are compared   *)
(* with the recorded behaviour of the implementation at the step at which  *)
(* they happen (Obs below), so a state where they differ is terminal.      *)
(* Frames are <<kind, node, env, data...>>.                                *)
(***************************************************************************)
EXTENDS CordyLib

Prog(s) == Progs[s.pid]
Obs(s)  == Progs[s.pid].obs
N(s, n) == Progs[s.pid].nodes[n]

Ev(s, n)       == [s EXCEPT !.m = "e", !.x = n]
Ret(s, v)      == [s EXCEPT !.m = "v", !.v = v]
Push(s, f)     == [s EXCEPT !.k = <<f, s.k>>]
EvP(s, f, n)   == [s EXCEPT !.m = "e", !.x = n, !.k = <<f, s.k>>]
Done(s, st, e) == [s EXCEPT !.m = "done", !.st = st, !.er = e]

------------------------------------------------------------------------------
(* Errors: the message, the line, and one line per function being executed *)
RECURSIVE CollectRet(_,_)
CollectRet(k, acc) == IF k = <<>> THEN acc
                      ELSE CollectRet(k[2], IF k[1][1] = "ret" THEN Append(acc, <<k[1][2], k[1][4]>>) ELSE acc)
FrameName(s, f) == IF f = Nil THEN "<script>" ELSE FnRepr(s.pid, f[2])
Again(n) == "  ... above line repeated " \o TLCStr(n) \o " more time(s) ...\n"
RECURSIVE TraceText(_,_,_,_,_,_)
(* fs: <<call node, callee>>, innermost first; prev: node of the previous
   site; last: the previous <<site, prev>>; cnt: how often it was repeated *)
TraceText(s, fs, i, prev, last, cnt) ==
  IF i > Len(fs) THEN IF cnt > 3 THEN Again(cnt - 3) ELSE ""
  ELSE LET site == fs[i][1]
           same == last = <<site, prev>>
           c2 == IF same THEN cnt + 1 ELSE 0
       IN (IF ~same /\ cnt > 3 THEN Again(cnt - 3) ELSE "")
          \o (IF c2 <= 3 THEN "  at: `" \o FrameName(s, fs[i][2]) \o "` (line " \o TLCStr(N(s, site)[2]) \o ")\n" ELSE "")
          \o TraceText(s, fs, i + 1, site, <<site, prev>>, c2)
CallTrace(s, nd) == TraceText(s, CollectRet(s.k, <<>>), 1, nd, <<0, 0>>, 0)
(* the text given to eval a node belongs to, 0 for the program *)
EvalOf(s, nd) == LET es == {i \in DOMAIN Prog(s).evals : Prog(s).evals[i].from <= nd /\ nd <= Prog(s).evals[i].to} IN
                 IF es = {} THEN 0 ELSE CHOOSE i \in es : TRUE
FileOf(s, nd) == IF EvalOf(s, nd) = 0 THEN Prog(s).file ELSE "<eval>"
Report(s, nd, msg) == msg \o "\n  at: line " \o TLCStr(N(s, nd)[2]) \o " (" \o FileOf(s, nd) \o ")\n" \o CallTrace(s, nd)
(* the node at fault stays in x *)
Err(s, nd, msg) == [s EXCEPT !.m = "done", !.st = IF msg = UNSPECIFIED THEN "open" ELSE "error", !.x = nd, !.v = S(msg), !.er = Report(s, nd, msg)]
(* continue with the result of a library operation *)
Res(s, nd, r) == IF r[1] = "err" THEN Err(s, nd, r[2]) ELSE [s EXCEPT !.m = "v", !.v = r[2], !.h = r[3]]

------------------------------------------------------------------------------
(* Names                                                                   *)
RECURSIVE FindMethod(_,_,_,_)
FieldIdx(s, sid, x) == IndexOfSeq(StructInfo(s.pid, sid).fields, x)
MethodIdx(s, sid, x) ==
  LET ms == StructInfo(s.pid, sid).methods IN
  IF \E i \in DOMAIN ms : ms[i][1] = x THEN CHOOSE i \in DOMAIN ms : ms[i][1] = x ELSE 0
(* the method without self named x of sid or an enclosing module *)
FindMethod(s, sid, x, d) ==
  IF sid = 0 THEN <<>>
  ELSE LET i == MethodIdx(s, sid, x)  m == StructInfo(s.pid, sid).methods[i] IN
       IF i # 0 /\ ~m[3] THEN <<m[2], m[4]>> ELSE FindMethod(s, StructInfo(s.pid, sid).outer, x, d)
MethodVal(m) == IF m[2] THEN <<"ffi", m[1]>> ELSE <<"fn", m[1], EMPTYMAP>>
NATIVES == DOMAIN NatArgs
(* <<"cell", i>> <<"field", i>> <<"val", v>> <<"self", fn>> <<"unset">> <<"?">> *)
Resolve(s, x) ==
  IF x \in DOMAIN s.env THEN <<"cell", s.env[x]>>
  ELSE IF x \in NATIVES THEN <<"val", <<"nat", x>>>>
  ELSE LET sid == IF "%S" \in DOMAIN s.env THEN s.env["%S"] ELSE 0
           mi == IF sid = 0 THEN 0 ELSE MethodIdx(s, sid, x)
           fi == IF sid = 0 THEN 0 ELSE FieldIdx(s, sid, x)
           sm == IF sid = 0 THEN <<>> ELSE FindMethod(s, sid, x, 0)
       IN IF mi # 0 /\ StructInfo(s.pid, sid).methods[mi][3] THEN <<"self", StructInfo(s.pid, sid).methods[mi][2]>>
          ELSE IF fi # 0 THEN <<"field", fi>>
          ELSE IF sm # <<>> THEN <<"val", MethodVal(sm)>>
          ELSE IF x \in DOMAIN s.gl THEN <<"cell", s.gl[x]>>
          ELSE IF \E i \in DOMAIN Prog(s).globals : Prog(s).globals[i] = x THEN <<"unset">>
          ELSE <<"?">>
UnsetErr(x) == "ValueError: '" \o x \o "' was referenced but has not been declared yet"
SelfVal(s) == s.cells[s.env["self"]]

FieldErr(s, acc, f, v) == "TypeError: Cannot " \o acc \o " field '" \o f \o "' on " \o
  (IF Kind(s.h, v) = "struct" THEN StructRepr(s.pid, s.h[v[2]][2]) ELSE IF Kind(s.h, v) = "stype" THEN Repr(s.pid, s.h, {}, v) ELSE Quoted(s.pid, s.h, v))
GetField(s, nd, v, f) ==
  CASE Kind(s.h, v) = "struct" ->
         LET sid == s.h[v[2]][2]  i == FieldIdx(s, sid, f)  j == MethodIdx(s, sid, f) IN
         IF i # 0 THEN Ret(s, s.h[v[2]][3][i])
         ELSE IF j # 0 /\ StructInfo(s.pid, sid).methods[j][3]
              THEN Ret(s, <<"pfn", <<"fn", StructInfo(s.pid, sid).methods[j][2], EMPTYMAP>>, <<v>>>>)
         ELSE Err(s, nd, FieldErr(s, "get", f, v))
    [] Kind(s.h, v) = "stype" ->
         LET i == FieldIdx(s, v[2], f)  j == MethodIdx(s, v[2], f) IN
         IF j # 0 THEN LET m == StructInfo(s.pid, v[2]).methods[j] IN Ret(s, MethodVal(<<m[2], m[4]>>))
         ELSE IF i # 0 THEN Ret(s, <<"getf", f>>)
         ELSE Err(s, nd, FieldErr(s, "get", f, v))
    [] OTHER -> Err(s, nd, FieldErr(s, "get", f, v))
SetField(s, nd, v, f, w) ==
  LET i == IF Kind(s.h, v) = "struct" THEN FieldIdx(s, s.h[v[2]][2], f) ELSE 0 IN
  IF i = 0 THEN Err(s, nd, FieldErr(s, "set", f, v))
  ELSE Ret([s EXCEPT !.h[v[2]][3][i] = w], w)

(* assignment to a name; the result is the value *)
Store(s, nd, x, v) ==
  LET r == Resolve(s, x) IN
  CASE r[1] = "cell" -> Ret([s EXCEPT !.cells[r[2]] = v], v)
    [] r[1] = "field" -> SetField(s, nd, SelfVal(s), x, v)
    [] r[1] = "unset" -> Err(s, nd, UnsetErr(x))
    [] OTHER -> Done(s, "spec", "assignment to " \o x)
(* a new variable; g: a global one *)
Declare(s, x, v, g) ==
  LET c == Append(s.cells, v) IN
  IF g THEN [s EXCEPT !.cells = c, !.gl = (x :> Len(c)) @@ s.gl]
  ELSE [s EXCEPT !.cells = c, !.env = (x :> Len(c)) @@ s.env]
RECURSIVE DeclareAll(_,_,_,_)
DeclareAll(s, bs, i, g) == IF i > Len(bs) THEN s ELSE DeclareAll(Declare(s, bs[i][1], bs[i][2], g), bs, i + 1, g)

------------------------------------------------------------------------------
(* Patterns.  What a pattern takes from a value: <<"ok", <<target, value>>*>>
   in the order in which the parts are stored, or an error                 *)
PartAt(s, v, i) ==
  IF Kind(s.h, v) = "dict" THEN
     LET j == PosOf(s.h, s.h[v[2]][2], I(i)) IN
     IF j = 0 THEN E("ValueError: Key " \o Quoted(s.pid, s.h, I(i)) \o " not found in dictionary")
     ELSE OK(s.h[v[2]][3][j], s.h)
  ELSE GetIndex(s.pid, s.h, v, I(i))
UnpackErr(s, v, len, n, var) == E("ValueError: Cannot unpack " \o Quoted(s.pid, s.h, v) \o " with length " \o IStr(len)
     \o ", expected " \o (IF var THEN "at least " ELSE "exactly ") \o TLCStr(n) \o " elements")
RECURSIVE Match(_,_,_), MatchParts(_,_,_,_,_,_,_)
(* i counts down; r is the position of the variadic part, or 0 *)
MatchParts(s, ps, v, i, r, len, acc) ==
  IF i = 0 THEN <<"ok", acc, s>>
  ELSE LET at == IF r # 0 /\ i > r THEN -(Len(ps) - i + 1) ELSE i - 1 IN
       IF i = r /\ ps[i][2] = "_" THEN MatchParts(s, ps, v, i - 1, r, len, acc)
       ELSE IF i = r THEN
         LET hi == Len(ps) - i
             g == Slice(s.pid, s.h, v, I(i - 1), IF hi = 0 THEN Nil ELSE I(-hi), Nil) IN
         IF g[1] = "err" THEN g
         ELSE MatchParts([s EXCEPT !.h = g[3]], ps, v, i - 1, r, len, Append(acc, <<<<"n", ps[i][2]>>, g[2]>>))
       ELSE IF ps[i][1] = "_" THEN MatchParts(s, ps, v, i - 1, r, len, acc)
       ELSE LET g == PartAt(s, v, at) IN
            IF g[1] = "err" THEN g
            ELSE IF ps[i][1] = "p" THEN
               LET q == Match(s, ps[i], g[2]) IN
               IF q[1] = "err" THEN q ELSE MatchParts(q[3], ps, v, i - 1, r, len, acc \o q[2])
            ELSE MatchParts(s, ps, v, i - 1, r, len, Append(acc, <<ps[i], g[2]>>))
Match(s, pat, v) ==
  CASE pat[1] = "n" -> <<"ok", <<<<pat, v>>>>, s>>
    [] pat[1] = "_" -> <<"ok", <<>>, s>>
    [] OTHER ->
       LET ps == pat[2]
           r == IF \E i \in DOMAIN ps : ps[i][1] = "rest" THEN CHOOSE i \in DOMAIN ps : ps[i][1] = "rest" ELSE 0
           need == IF r = 0 THEN Len(ps) ELSE Len(ps) - 1
           ln == LenOf(s.pid, s.h, v)
       IN IF ln[1] = "err" THEN ln
          ELSE IF (r = 0 /\ ln[2] # I(need)) \/ (r # 0 /\ ILt(ln[2], I(need))) THEN UnpackErr(s, v, ln[2], need, r # 0)
          ELSE MatchParts(s, ps, v, Len(ps), r, ln[2], <<>>)
Binds(ms) == [i \in DOMAIN ms |-> <<ms[i][1][2], ms[i][2]>>]

------------------------------------------------------------------------------
(* Printing and foreign calls, against what was observed                   *)
Emit(s, t) ==
  LET o == Obs(s).out  n == Len(t) IN
  IF Obs(s).st \in {"crash", "hang"} THEN s        \* what was printed before is not known
  ELSE IF s.op + n <= Len(o) /\ SubSeq(o, s.op + 1, s.op + n) = t THEN [s EXCEPT !.op = s.op + n]
  ELSE Done(s, "output", "expected `" \o t \o "` after " \o TLCStr(s.op) \o " characters")
RECURSIVE ForeignVal(_,_), ForeignVals(_,_)
(* What arrives on the other side for a value: lists arrive as vectors, and *)
(* only nil, booleans, integers, strings and sequences of them can be sent. *)
ForeignVals(h, vs) ==
  IF vs = <<>> THEN <<TRUE, <<>>, h>>
  ELSE LET a == ForeignVal(h, vs[1]) IN
       IF ~a[1] THEN a ELSE LET b == ForeignVals(a[3], Tail(vs)) IN IF ~b[1] THEN b ELSE <<TRUE, <<a[2]>> \o b[2], b[3]>>
ForeignVal(h, v) ==
  IF v = Nil \/ IsIntLike(v) \/ v[1] = "str" THEN <<TRUE, v, h>>
  ELSE IF Kind(h, v) \in {"list", "vec"} THEN
       LET r == ForeignVals(h, Elems(h, v)) IN
       IF ~r[1] THEN r ELSE <<TRUE, Ref(Len(r[3]) + 1), Append(r[3], <<"vec", r[2]>>)>>
  ELSE <<FALSE, Nil, h>>
FOREIGN == {"fail", "count", "sum", "last", "pack", "nothing"}     \* what the libraries define
ForeignRun(s, nd, name, args) ==
  LET ints == SelectSeq(args, IsIntLike) IN
  CASE name = "fail" -> Err(s, nd, "OSError: fail")
    [] name = "count" -> Ret(s, I(Len(args)))
    [] name = "sum" -> Ret(s, SumFrom(s.pid, s.h, ints, 1, I(0))[2])
    [] name = "last" -> Ret(s, IF args = <<>> THEN Nil ELSE args[Len(args)])
    [] name = "pack" /\ Progs[s.pid].real -> Ret([s EXCEPT !.h = Append(s.h, <<"vec", args>>)], Ref(Len(s.h) + 1))
    [] OTHER -> Ret(s, Nil)
Foreign(s, nd, f, args) ==
  LET fn == N(s, f[2])  real == Progs[s.pid].real
      r == ForeignVals(s.h, args)
      as == IF real THEN r[2] ELSE args
      i == s.fi + 1
      rs == [j \in DOMAIN as |-> Repr(s.pid, IF real THEN r[3] ELSE s.h, {}, as[j])]
      call == <<fn[9], fn[3], Len(args), rs>>
      s2 == [s EXCEPT !.fi = i, !.h = IF real THEN r[3] ELSE s.h]
      linked == \E j \in DOMAIN Progs[s.pid].links : Progs[s.pid].links[j] = fn[9]
  IN IF real /\ ~linked THEN Err(s, nd, "OSError: No --link provided for native module " \o fn[9])
     ELSE IF real /\ fn[3] \notin FOREIGN
     THEN Err(s, nd, "OSError: Loading native function '" \o fn[3] \o "' from module " \o fn[9] \o ": ./lib" \o fn[9] \o ".so: undefined symbol: " \o fn[3])
     ELSE IF real /\ ~r[1] THEN Err(s, nd, "OSError: FFI Type must be a primitive nil, bool, or int")
     ELSE IF i > Len(Obs(s).ffi) \/ Obs(s).ffi[i] # call THEN Done(s, "foreign", "expected the call " \o fn[3] \o "(" \o Join(rs, ", ") \o ")")
     ELSE ForeignRun(s2, nd, fn[3], as)

------------------------------------------------------------------------------
(* Calling functions.  nd is the node that causes the call.                *)
Params(s, f) == N(s, f[2])[4]
MinP(s, f) == Cardinality({i \in DOMAIN Params(s, f) : Params(s, f)[i][2] = "req"})
IsVar(s, f) == \E i \in DOMAIN Params(s, f) : Params(s, f)[i][2] = "var"
NumP(s, f) == Cardinality({i \in DOMAIN Params(s, f) : Params(s, f)[i][2] # "var"})
RECURSIVE EnterFrom(_,_,_,_,_), Invoke(_,_,_,_), Hof(_,_,_,_,_), NatCall(_,_,_,_), HofNext(_,_,_,_,_,_,_)
(* all parameter values are known: bind them, patterns after plain names   *)
EnterFrom(s, f, vals, i, late) ==
  LET ps == Params(s, f) IN
  IF i > Len(ps) THEN
    IF late = <<>> THEN Ev(s, N(s, f[2])[5])
    ELSE LET q == Match(s, late[1][1], late[1][2]) IN
         IF q[1] = "err" THEN Err(s, f[2], q[2])
         ELSE EnterFrom(DeclareAll(q[3], Binds(q[2]), 1, FALSE), f, vals, i, Tail(late))
  ELSE IF ps[i][1][1] = "n" THEN EnterFrom(Declare(s, ps[i][1][2], vals[i], FALSE), f, vals, i + 1, late)
  ELSE EnterFrom(s, f, vals, i + 1, Append(late, <<ps[i][1], vals[i]>>))
Enter(s, f, vals) ==
  LET sid == N(s, f[2])[6] IN
  IF f[1] = "ffi" THEN Foreign(s, f[2], f, vals)     \* reported at the declaration, with the call as its caller
  ELSE EnterFrom([s EXCEPT !.env = IF sid = 0 THEN f[3] ELSE ("%S" :> sid) @@ f[3]], f, vals, 1, <<>>)
(* vals: the values so far of the non-variadic parameters *)
Defaults(s, f, vals) ==
  IF Len(vals) < NumP(s, f)
  THEN EvP([s EXCEPT !.env = IF f[1] = "ffi" THEN EMPTYMAP ELSE f[3]], <<"dfa", f[2], IF f[1] = "ffi" THEN EMPTYMAP ELSE f[3], f, vals>>, Params(s, f)[Len(vals) + 1][3])
  ELSE IF IsVar(s, f)
  THEN Enter([s EXCEPT !.h = Append(s.h, <<"vec", <<>>>>)], f, Append(vals, Ref(Len(s.h) + 1)))
  ELSE Enter(s, f, vals)
CallFn(s, nd, f, args) ==
  LET n == Len(args)  m == NumP(s, f)
      s2 == Push(s, <<"ret", nd, s.env, f>>)
  IN IF n > m THEN
       LET s3 == [s2 EXCEPT !.h = Append(s.h, <<"vec", SubSeq(args, m + 1, n)>>)] IN
       Enter(s3, f, Append(SubSeq(args, 1, m), Ref(Len(s.h) + 1)))
     ELSE Defaults(s2, f, args)
UserErr(s, f, n) == "Incorrect number of arguments for " \o Repr(s.pid, s.h, {}, f) \o ", got " \o TLCStr(n)
(* a dictionary lookup, which may call the default function                *)
DictGet(s, nd, d, key) ==
  LET c == s.h[d[2]]  j == PosOf(s.h, c[2], key) IN
  IF j # 0 THEN Ret(s, c[3][j])
  ELSE IF c[4] = <<>> THEN Err(s, nd, "ValueError: Key " \o Quoted(s.pid, s.h, key) \o " not found in dictionary")
  ELSE LET f == c[4][1]  s2 == Push(s, <<"dflt", nd, s.env, d, key>>) IN
       IF IsEvaluable(s.h, f) /\ f[1] # "pnat"
          /\ ~(f[1] = "nat" /\ MinArgs(ArityOf(f[2])) > 0)
       THEN Invoke(s2, nd, f, <<>>) ELSE Ret(s2, f)
Index(s, nd, a, i) == IF IsKind(s.h, a, "dict") THEN DictGet(s, nd, a, i) ELSE Res(s, nd, GetIndex(s.pid, s.h, a, i))
Invoke(s, nd, f, args) ==
  LET n == Len(args)  kd == Kind(s.h, f) IN
  CASE kd \in {"fn", "ffi"} ->
         IF n < MinP(s, f) THEN Ret(s, IF n = 0 THEN f ELSE <<"pfn", f, args>>)
         ELSE IF n > NumP(s, f) /\ ~IsVar(s, f) THEN Err(s, nd, UserErr(s, f, n))
         ELSE CallFn(s, nd, f, args)
    [] kd = "nat" -> NatCall(s, nd, f[2], args)
    [] kd = "pfn" ->
         LET all == f[3] \o args IN
         IF Len(all) < MinP(s, f[2]) THEN Ret(s, <<"pfn", f[2], all>>)
         ELSE IF Len(all) > NumP(s, f[2]) /\ ~IsVar(s, f[2]) THEN Err(s, nd, UserErr(s, f[2], Len(all)))
         ELSE CallFn(s, nd, f[2], all)
    [] kd = "pnat" ->
         IF n = 0 THEN Ret(s, f)
         ELSE LET all == f[3] \o args  m == MaxArgs(ArityOf(f[2])) IN
              IF Len(all) > m THEN Err(s, nd, ErrArgs(f[2], Len(all))) ELSE NatCall(s, nd, f[2], all)
    [] kd = "list" ->
         IF n # 1 THEN Err(s, nd, NotFunc(s.pid, s.h, f))
         ELSE IF Len(Elems(s.h, f)) # 1 THEN Err(s, nd, "ValueError: Evaluating an index must have len = 1, got len = " \o TLCStr(Len(Elems(s.h, f))))
         ELSE Index(s, nd, args[1], Elems(s.h, f)[1])
    [] kd = "slice" ->
         IF n # 1 THEN Err(s, nd, NotFunc(s.pid, s.h, f)) ELSE Res(s, nd, Slice(s.pid, s.h, args[1], f[2], f[3], f[4]))
    [] kd = "stype" ->
         LET si == StructInfo(s.pid, f[2]) IN
         IF si.module THEN Err(s, nd, NotFunc(s.pid, s.h, f))
         ELSE IF n # Len(si.fields) THEN Err(s, nd, "Incorrect number of arguments for " \o StructRepr(s.pid, f[2]) \o ", got " \o TLCStr(n))
         ELSE Ret([s EXCEPT !.h = Append(s.h, <<"struct", f[2], args>>)], Ref(Len(s.h) + 1))
    [] kd = "getf" ->
         IF n # 1 THEN Err(s, nd, "Incorrect number of arguments for native (->'" \o f[2] \o "'), got " \o TLCStr(n))
         ELSE GetField(s, nd, args[1], f[2])
    [] kd = "memo" ->
         LET c == s.h[f[2]]
             hit == {i \in DOMAIN c[3] : Len(c[3][i]) = n /\ EqSeq(s.h, c[3][i], args, 1)}
         IN IF hit # {} THEN Ret(s, c[4][CHOOSE i \in hit : TRUE])
            ELSE Invoke(Push(s, <<"memo", nd, s.env, f, args>>), nd, c[2], args)
    [] OTHER -> Err(s, nd, NotFunc(s.pid, s.h, f))

------------------------------------------------------------------------------
(* Native functions                                                        *)
HOFS == {"map", "filter", "flat_map", "any", "all", "reduce", "group_by", "min_by", "max_by", "sort_by",
         "find", "rfind", "index_of", "rindex_of", "replace"}
RECURSIVE TakeLine(_,_)
TakeLine(t, i) == IF i > Len(t) THEN i - 1 ELSE IF Ch(t, i) = "\n" THEN i ELSE TakeLine(t, i + 1)
NatCall(s, nd, f, a) ==
  LET n == Len(a)  ar == ArityOf(f)
      part == Ret(s, IF n = 0 THEN <<"nat", f>> ELSE <<"pnat", f, a>>)
      bad == Err(s, nd, ErrArgs(f, n))
  IN CASE ar = "x" -> Err(s, nd, NotFunc(s.pid, s.h, <<"nat", f>>))
       [] ar \notin {"u", "un", "i", "in"} /\ n < MinArgs(ar) -> part
       [] ar \notin {"u", "un", "i", "in"} /\ n > MaxArgs(ar) -> bad
       [] ar \in {"un", "in"} /\ n = 0 -> bad
       [] f = "print" ->
            LET s2 == Emit(s, Join([i \in DOMAIN a |-> StrOf(s.pid, s.h, a[i])], " ") \o "\n") IN
            IF s2.m = "done" THEN s2 ELSE Ret(s2, Nil)
       [] f = "read" -> LET t == Prog(s).stdin IN Ret([s EXCEPT !.ip = Len(t)], S(SubSeq(t, s.ip + 1, Len(t))))
       [] f = "read_line" ->
            LET t == Prog(s).stdin  e == TakeLine(t, s.ip + 1)
                r == SubSeq(t, s.ip + 1, e)
                r2 == IF Len(r) > 0 /\ Ch(r, Len(r)) = "\n" THEN SubSeq(r, 1, Len(r) - 1) ELSE r
                r3 == IF Len(r2) < Len(r) /\ Len(r2) > 0 /\ Ch(r2, Len(r2)) = "\r" THEN SubSeq(r2, 1, Len(r2) - 1) ELSE r2
            IN Ret([s EXCEPT !.ip = e], S(r3))
       [] f = "eval" -> IF a[1][1] # "str" THEN Err(s, nd, ErrStr(s.pid, s.h, a[1])[2]) ELSE [s EXCEPT !.m = "eval", !.x = nd, !.v = a[1]]
       [] f = "monitor" -> IF a[1][1] # "str" THEN Err(s, nd, ErrStr(s.pid, s.h, a[1])[2])
                           ELSE IF a[1][2] \in {"stack", "call-stack", "code"} THEN Err(s, nd, UNSPECIFIED)
                           ELSE Err(s, nd, "MonitorError: Illegal monitor command '" \o a[1][2] \o "'")
       [] f = "argv" -> Res(s, nd, NewList(s.h, [i \in DOMAIN Prog(s).args |-> S(Prog(s).args[i])]))
       [] f = "default" ->
            IF Kind(s.h, a[2]) # "dict" THEN Err(s, nd, ErrDict(s.pid, s.h, a[2])[2])
            ELSE IF a[1][1] = "nat" /\ ArityOf(a[1][2]) \in {"un", "in"} THEN Err(s, nd, ErrArgs(a[1][2], 0))
            ELSE IF (a[1][1] = "nat" /\ ArityOf(a[1][2]) = "x") \/ a[1][1] = "slice" THEN Err(s, nd, NotFunc(s.pid, s.h, a[1]))
            ELSE Ret([s EXCEPT !.h[a[2][2]][4] = <<a[1]>>], a[2])
       [] f = "group_by" /\ IsIntLike(a[1]) -> Res(s, nd, Lib(s.pid, s.h, f, a))
       [] f \in {"find", "rfind", "index_of", "rindex_of"} /\ ~IsEvaluable(s.h, a[1]) -> Res(s, nd, Lib(s.pid, s.h, f, a))
       [] f = "replace" /\ ~IsEvaluable(s.h, a[2]) -> Res(s, nd, Lib(s.pid, s.h, f, a))
       [] f \in HOFS -> Hof(s, nd, f, IF f = "replace" THEN a[2] ELSE a[1], a)
       [] OTHER -> Res(s, nd, Lib(s.pid, s.h, f, a))

(* whether f can be called with one / two arguments, checked up front      *)
Check1(s, f) ==
  CASE Kind(s.h, f) \in {"fn", "pfn", "pnat", "ffi", "list", "slice", "stype", "getf", "memo"} -> ""
    [] f[1] = "nat" -> (IF ArityOf(f[2]) = "0" THEN ErrArgs(f[2], 1)
                        ELSE IF ArityOf(f[2]) = "x" THEN NotFunc(s.pid, s.h, f) ELSE "")
    [] OTHER -> NotFunc(s.pid, s.h, f)
Check2(s, f) ==
  CASE Kind(s.h, f) \in {"fn", "pfn", "ffi", "list", "slice", "stype", "getf", "memo"} -> ""
    [] f[1] = "pnat" -> (IF Len(f[3]) + 2 > MaxArgs(ArityOf(f[2])) THEN ErrArgs(f[2], Len(f[3]) + 2) ELSE "")
    [] f[1] = "nat" -> (IF ArityOf(f[2]) \in {"0", "0-1", "1"} THEN ErrArgs(f[2], 2)
                        ELSE IF ArityOf(f[2]) = "x" THEN NotFunc(s.pid, s.h, f) ELSE "")
    [] OTHER -> NotFunc(s.pid, s.h, f)
(* the least number of arguments: decides key function or comparator       *)
MinNArgs(s, f) ==
  CASE f[1] \in {"fn", "ffi"} -> MinP(s, f)
    [] f[1] = "pfn" -> MinP(s, f[2]) - Len(f[3])
    [] f[1] = "nat" -> MinArgs(ArityOf(f[2]))
    [] f[1] = "pnat" -> MinArgs(ArityOf(f[2])) - Len(f[3])
    [] f[1] = "stype" -> Len(StructInfo(s.pid, f[2]).fields)
    [] f[1] = "slice" -> 1
    [] OTHER -> -1
CmpErr(s, f) == "TypeError: Expected " \o Quoted(s.pid, s.h, f) \o " to be a '<A, B> fn key(A) -> B' or '<A> cmp(A, A) -> int' function"

(* Start a function that calls f for the elements of an iterable.
   The frame is <<"hof", node, env, name, f, iterator, acc, cur, i>>        *)
Hof(s, nd, name, f, a) ==
  LET src == IF name = "replace" THEN a[3] ELSE a[2]
      c1 == Check1(s, f)
      itr == MkIter(s.pid, s.h, src)
      seq == ToSeq(s.pid, s.h, src)
      Go(it, acc) == HofNext(s, nd, name, f, it, acc, 0)
  IN CASE name \in {"map", "filter", "flat_map"} ->
            IF c1 # "" THEN Err(s, nd, c1) ELSE IF itr[1] = "err" THEN Err(s, nd, itr[2]) ELSE Go(itr[2], <<>>)
       [] name \in {"any", "all"} ->
            IF c1 # "" THEN Err(s, nd, c1) ELSE IF itr[1] = "err" THEN Err(s, nd, itr[2]) ELSE Go(itr[2], <<>>)
       [] name = "replace" /\ a[1][1] = "str" /\ ~Plain(a[1][2]) -> Err(s, nd, UNSPECIFIED)
       [] itr[1] = "err" /\ name # "replace" -> Err(s, nd, itr[2])
       [] name \in {"find", "index_of"} -> IF c1 # "" THEN Err(s, nd, c1) ELSE Go(itr[2], <<>>)
       [] name \in {"rfind", "rindex_of"} ->
            IF c1 # "" THEN Err(s, nd, c1)
            ELSE LET e == seq[2] IN HofNext([s EXCEPT !.h = seq[3]], nd, name, f, <<"its", [i \in DOMAIN e |-> e[Len(e) + 1 - i]], 0>>, Len(e), 0)
       [] name = "group_by" -> IF c1 # "" THEN Err(s, nd, c1) ELSE Go(itr[2], <<<<>>, <<>>>>)
       [] name = "reduce" ->
            LET r == NextIt(s.h, itr[2]) IN
            IF ~r[1] THEN Err(s, nd, ErrEmpty("reduce")[2])
            ELSE LET c2 == Check2(s, f) IN IF c2 # "" THEN Err(s, nd, c2)
                 ELSE HofNext([s EXCEPT !.h = r[4]], nd, name, f, r[3], r[2], 0)
       [] name \in {"min_by", "max_by", "sort_by"} ->
            LET m == MinNArgs(s, f)  c2 == Check2(s, f) IN
            CASE m = 2 -> IF c2 # "" THEN Err(s, nd, c2)
                          ELSE IF name = "sort_by" THEN HofNext([s EXCEPT !.h = seq[3]], nd, "sort2", f, seq[2], <<>>, 0)
                          ELSE Go(itr[2], <<"cmp">>)
              [] m = 1 -> IF c1 # "" THEN Err(s, nd, c1)
                          ELSE IF name = "sort_by" /\ Len(seq[2]) < 2
                          THEN Res([s EXCEPT !.h = seq[3]], nd, NewList(seq[3], seq[2]))     \* nothing to compare
                          ELSE Go(itr[2], <<"key">>)
              [] m >= 0 -> Err(s, nd, CmpErr(s, f))
              [] OTHER -> Err(s, nd, ErrFunc(s.pid, s.h, f)[2])
       [] OTHER ->    \* replace with a function; plain patterns only
            IF a[1][1] # "str" THEN Err(s, nd, ErrStr(s.pid, s.h, a[1])[2])
            ELSE IF a[3][1] # "str" THEN Err(s, nd, ErrStr(s.pid, s.h, a[3])[2])
            ELSE IF c1 # "" THEN Err(s, nd, c1)
            ELSE HofNext(s, nd, name, f, <<a[1][2], a[3][2], 1>>, "", 0)

HofFin(s, nd, name, f, acc) ==
  CASE name \in {"map", "filter", "flat_map", "sort2"} -> Res(s, nd, NewList(s.h, acc))
    [] name \in {"any", "all"} -> Ret(s, B(name = "all"))
    [] name \in {"index_of", "rindex_of"} -> Ret(s, I(-1))
    [] name \in {"find", "rfind"} -> Ret(s, Nil)
    [] name = "reduce" -> Ret(s, acc)
    [] name = "replace" -> Ret(s, S(acc))
    [] name = "group_by" ->
         LET h2 == s.h \o [i \in DOMAIN acc[2] |-> <<"vec", acc[2][i]>>] IN
         Res(s, nd, NewDict(h2, acc[1], [i \in DOMAIN acc[1] |-> Ref(Len(s.h) + i)]))
    [] name \in {"min_by", "max_by"} -> IF Len(acc) = 1 THEN Err(s, nd, ErrEmpty(name)[2]) ELSE Ret(s, acc[2])
    [] OTHER ->     \* sort_by with a key: acc is <<"key", <<element, key>>*>>
         LET ps == Tail(acc)
             key(x) == x[2]
             RECURSIVE Ins(_,_,_), All(_,_)
             Ins(q, x, i) == IF i = 0 \/ Cmp(s.h, q[i][2], x[2]) <= 0 THEN SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
                             ELSE Ins(q, x, i - 1)
             All(q, i) == IF i > Len(ps) THEN q ELSE All(Ins(q, ps[i], Len(q)), i + 1)
             r == All(<<>>, 1)
         IN Res(s, nd, NewList(s.h, [i \in DOMAIN r |-> r[i][1]]))

(* call f for the next element, or finish *)
HofNext(s, nd, name, f, it, acc, i) ==
  IF name = "sort2" THEN      \* insertion sort: acc is sorted, it is what remains
    IF it = <<>> THEN HofFin(s, nd, name, f, acc)
    ELSE IF acc = <<>> THEN HofNext(s, nd, name, f, Tail(it), <<it[1]>>, 0)
    ELSE Invoke(Push(s, <<"hof", nd, s.env, name, f, it, acc, it[1], Len(acc)>>), nd, f, <<it[1], acc[Len(acc)]>>)
  ELSE IF name = "replace" THEN
    LET at == IF it[1] = "" THEN 0 ELSE FindSub(it[2], it[1], it[3]) IN
    IF at = 0 THEN HofFin(s, nd, name, f, acc \o SubSeq(it[2], it[3], Len(it[2])))
    ELSE Invoke(Push(s, <<"hof", nd, s.env, name, f, <<it[1], it[2], at + Len(it[1])>>, acc \o SubSeq(it[2], it[3], at - 1), Nil, i>>), nd, f, <<S(it[1])>>)
  ELSE LET r == NextIt(s.h, it) IN
    IF ~r[1] THEN HofFin(s, nd, name, f, acc)
    ELSE LET s2 == [s EXCEPT !.h = r[4]]
             go(args) == Invoke(Push(s2, <<"hof", nd, s.env, name, f, r[3], acc, r[2], i + 1>>), nd, f, args)
         IN CASE name = "reduce" -> go(<<acc, r[2]>>)
              [] name \in {"min_by", "max_by"} /\ acc[1] = "cmp" ->
                   IF Len(acc) = 1 THEN HofNext(s2, nd, name, f, r[3], <<"cmp", r[2]>>, i + 1) ELSE go(<<acc[2], r[2]>>)
              [] OTHER -> go(<<r[2]>>)

(* the value s.v came back from a call made by HofNext *)
HofBack(s, fr) ==
  LET nd == fr[2]  name == fr[4]  f == fr[5]  it == fr[6]  acc == fr[7]  cur == fr[8]  i == fr[9]  v == s.v
      go(a) == HofNext(s, nd, name, f, it, a, i)
      t == Truthy(s.h, v)
  IN CASE name = "map" -> go(Append(acc, v))
       [] name = "filter" -> go(IF t THEN Append(acc, cur) ELSE acc)
       [] name = "flat_map" -> LET q == ToSeq(s.pid, s.h, v) IN
            IF q[1] = "err" THEN Err(s, nd, q[2]) ELSE HofNext([s EXCEPT !.h = q[3]], nd, name, f, it, acc \o q[2], i)
       [] name \in {"any", "all"} -> IF t = (name = "any") THEN Ret(s, B(name = "any")) ELSE go(acc)
       [] name = "find" -> IF t THEN Ret(s, cur) ELSE go(acc)
       [] name = "index_of" -> IF t THEN Ret(s, I(i - 1)) ELSE go(acc)
       [] name = "rfind" -> IF t THEN Ret(s, cur) ELSE go(acc)
       [] name = "rindex_of" -> IF t THEN Ret(s, I(acc - i)) ELSE go(acc)
       [] name = "reduce" -> go(v)
       [] name = "replace" -> IF v[1] # "str" THEN Err(s, nd, ErrStr(s.pid, s.h, v)[2]) ELSE go(acc \o v[2])
       [] name = "group_by" ->
            LET j == PosOf(s.h, acc[1], v) IN
            IF j = 0 THEN go(<<Append(acc[1], v), Append(acc[2], <<cur>>)>>)
            ELSE go(<<acc[1], [acc[2] EXCEPT ![j] = Append(@, cur)]>>)
       [] name = "sort2" ->
            IF ~IsIntLike(v) THEN Err(s, nd, ErrInt(s.pid, s.h, v)[2])
            ELSE IF INegative(AsInt(v)) /\ i > 1
                 THEN Invoke(Push(s, <<"hof", nd, fr[3], name, f, it, acc, cur, i - 1>>), nd, f, <<cur, acc[i - 1]>>)
            ELSE LET j == IF INegative(AsInt(v)) THEN 0 ELSE i IN
                 HofNext(s, nd, name, f, Tail(it), SubSeq(acc, 1, j) \o <<cur>> \o SubSeq(acc, j + 1, Len(acc)), 0)
       [] name = "sort_by" -> go(Append(acc, <<cur, v>>))
       [] acc[1] = "cmp" ->
            IF ~IsIntLike(v) THEN Err(s, nd, ErrInt(s.pid, s.h, v)[2])
            ELSE LET gt == ISign(AsInt(v)) > 0 IN
                 go(<<"cmp", IF gt = (name = "min_by") THEN cur ELSE acc[2]>>)
       [] OTHER ->     \* min_by / max_by with a key: acc is <<"key", best, its key>>
            IF Len(acc) = 1 THEN go(<<"key", cur, v>>)
            ELSE LET c == Cmp(s.h, acc[3], v) IN
                 IF (name = "min_by" /\ c > 0) \/ (name = "max_by" /\ c <= 0) THEN go(<<"key", cur, v>>) ELSE go(acc)

------------------------------------------------------------------------------
(* Statements that transfer control                                        *)
RECURSIVE Unwind(_,_)
Unwind(k, kind) == IF k = <<>> THEN <<>> ELSE IF k[1][1] = kind THEN k ELSE Unwind(k[2], kind)
Break(s) == LET k == Unwind(s.k, "lp") IN IF k = <<>> THEN Done(s, "spec", "break outside a loop")
            ELSE Ret([s EXCEPT !.k = k[2], !.env = k[1][3]], Nil)
Continue(s) == LET k == Unwind(s.k, "lp") IN IF k = <<>> THEN Done(s, "spec", "continue outside a loop")
               ELSE LET fr == k[1]  nd == N(s, fr[2]) IN
                    IF nd[1] = "dow" THEN EvP([s EXCEPT !.k = k[2], !.env = fr[3]], fr, nd[3])
                    ELSE Ret([s EXCEPT !.k = k], Nil)
Return(s, v) == LET k == Unwind(s.k, "ret") IN IF k = <<>> THEN Done(s, "return", "") ELSE Ret([s EXCEPT !.k = k], v)

ForNext(s, nd, env, it) ==
  LET r == NextIt(s.h, it)  n == N(s, nd)  s1 == [s EXCEPT !.env = env] IN
  IF ~r[1] THEN (IF n[6] = 0 THEN Ret(s1, Nil) ELSE Ev(s1, n[6]))
  ELSE LET q == Match([s1 EXCEPT !.h = r[4]], n[3], r[2]) IN
       IF q[1] = "err" THEN Err(s1, nd, q[2])
       ELSE EvP(DeclareAll(q[3], Binds(q[2]), 1, FALSE), <<"lp", nd, env, r[3]>>, n[5])

(* run statement i of a block; val: the last value is the block's value    *)
Stmts(s, nd, i) == LET n == N(s, nd) IN
  IF i > Len(n[3]) THEN Ret(s, Nil) ELSE EvP(s, <<"seq", nd, <<>>, i>>, n[3][i])

(* the decorators are evaluated from the first to the last, then the function
   is made, and they are applied to it from the last to the first           *)
Decorate(s, nd, i, ds, f) ==    \* decorators i, i-1, ... of ds are still to be applied to f
  LET n == N(s, nd) IN
  IF i = 0 THEN
    LET r == IF n[5] THEN s.gl[N(s, n[3])[3]] ELSE s.env[N(s, n[3])[3]] IN Ret([s EXCEPT !.cells[r] = f], Nil)
  ELSE Invoke(Push(s, <<"deco2", nd, s.env, i, ds>>), nd, ds[i], <<f>>)
Decorators(s, nd, ds) ==        \* the values of the first decorators are ds
  LET n == N(s, nd) IN
  IF Len(ds) = Len(n[4]) THEN Decorate(s, nd, Len(ds), ds, <<"fn", n[3], s.env>>)
  ELSE EvP(s, <<"deco", nd, s.env, ds>>, n[4][Len(ds) + 1])

AssertErr(s, nd, why, m) ==
  Err(s, nd, "Assertion Failed:" \o (IF m = Nil THEN "" ELSE " " \o m[2])
             \o (IF why = "" THEN "" ELSE (IF m = Nil THEN " " ELSE "\n") \o why))
AssertFail(s, nd, env, why) ==
  IF N(s, nd)[4] = 0 THEN AssertErr(s, nd, why, Nil) ELSE EvP(s, <<"asm", nd, env, why>>, N(s, nd)[4])

------------------------------------------------------------------------------
(* Evaluate node s.x                                                       *)
BinNames == {"bin"}
StepE(s) ==
  LET nd == s.x  n == N(s, nd)  t == n[1]  env == s.env IN
  CASE t = "lit" -> Ret(s, n[3])
    [] t \in {"empty", "varempty", "varname"} -> Ret(s, Nil)
    [] t = "var" ->
         LET r == Resolve(s, n[3]) IN
         CASE r[1] = "cell" -> Ret(s, s.cells[r[2]])
           [] r[1] = "val" -> Ret(s, r[2])
           [] r[1] = "field" -> GetField(s, nd, SelfVal(s), n[3])
           [] r[1] = "self" -> Ret(s, <<"pfn", <<"fn", r[2], EMPTYMAP>>, <<SelfVal(s)>>>>)
           [] r[1] = "unset" -> Err(s, nd, UnsetErr(n[3]))
           [] OTHER -> Done(s, "spec", "undeclared name " \o n[3])
    [] t = "bin" -> EvP(s, <<"bin1", nd, env>>, n[4])
    [] t = "call" -> EvP(s, <<"callf", nd, env>>, n[3])
    [] t = "expr" -> Ev(s, n[3])
    [] t = "blk" -> IF n[4] THEN Stmts(s, nd, 1) ELSE Stmts(Push(s, <<"blk", nd, env>>), nd, 1)
    [] t = "idx" -> EvP(s, <<"idx1", nd, env>>, n[3])
    \* outside of a run (ip < 0): one which was reported is taken for nil
    [] t = "asg" -> IF s.ip < 0 THEN Ret(s, Nil) ELSE EvP(s, <<"asg", nd, env>>, n[4])
    [] t = "let" -> IF n[4] = 0 THEN Ret(DeclareAll(s, [i \in DOMAIN n[3][2] |-> <<n[3][2][i], Nil>>], 1, n[5]), Nil)
                    ELSE EvP(s, <<"let", nd, env>>, n[4])
    [] t = "if" -> EvP(s, <<"if", nd, env>>, n[3])
    [] t = "fn" -> Ret(s, <<"fn", nd, env>>)
    [] t = "cmp" -> EvP(s, <<"cmp1", nd, env>>, n[3])
    [] t \in {"and", "or"} -> EvP(s, <<t, nd, env>>, n[3])
    [] t = "un" -> EvP(s, <<"un", nd, env>>, n[4])
    [] t = "tern" -> EvP(s, <<"tern", nd, env>>, n[3])
    [] t = "comp" -> EvP(s, <<"comp1", nd, env>>, n[3])
    [] t = "mk" -> IF n[4] = <<>> THEN Ret(Push(s, <<"mk", nd, env, 0, <<>>>>), Nil)
                   ELSE EvP(s, <<"mk", nd, env, 1, <<>>>>, n[4][1][1])
    [] t = "slc" -> EvP(s, <<"slc", nd, env, 0, <<>>>>, n[3])
    [] t = "mkslc" -> Ret(Push(s, <<"slc", nd, env, 0, <<>>>>), Nil)
    [] t = "getf" -> EvP(s, <<"getf", nd, env>>, n[3])
    [] t = "sec" -> EvP(s, <<"sec", nd, env>>, n[4])
    [] t = "opasg" ->
         LET r == Resolve(s, n[4]) IN
         CASE r[1] = "cell" -> EvP(s, <<"opa", nd, env, s.cells[r[2]]>>, n[5])
           [] r[1] = "field" ->
                LET g == GetField(s, nd, SelfVal(s), n[4]) IN EvP(s, <<"opa", nd, env, g.v>>, n[5])
           [] r[1] = "unset" -> Err(s, nd, UnsetErr(n[4]))
           [] OTHER -> Done(s, "spec", "assignment to " \o n[4])
    [] t = "seti" -> EvP(s, <<"seti", nd, env, <<>>>>, n[3])
    [] t = "opseti" -> EvP(s, <<"opseti", nd, env, <<>>>>, n[4])
    [] t = "setf" -> EvP(s, <<"setf1", nd, env>>, n[3])
    [] t = "opsetf" -> EvP(s, <<"opsetf1", nd, env>>, n[4])
    [] t = "pasg" -> IF n[4] = <<>> THEN EvP(s, <<"pasg", nd, env, <<>>>>, n[5])
                     ELSE EvP(s, <<"pasub", nd, env, <<>>>>, n[4][1])
    [] t = "while" -> EvP(s, <<"wc", nd, env>>, n[3])
    [] t = "for" -> EvP(s, <<"fori", nd, env>>, n[4])
    [] t = "loop" -> EvP(s, <<"lp", nd, env>>, n[3])
    [] t = "dow" -> EvP(s, <<"lp", nd, env>>, n[3])
    [] t = "break" -> Break(s)
    [] t = "cont" -> Continue(s)
    [] t = "return" -> IF n[3] = 0 THEN Return(s, Nil) ELSE EvP(s, <<"rtn", nd, env>>, n[3])
    [] t = "assert" ->
         LET c == N(s, n[3]) IN
         IF c[1] = "cmp" /\ Len(c[4]) = 1 THEN EvP(s, <<"asl", nd, env>>, c[3]) ELSE EvP(s, <<"ast", nd, env>>, n[3])
    [] t = "fnd" ->
         LET f == N(s, n[3])  s2 == Declare(s, f[3], Nil, n[5]) IN
         Decorators(s2, nd, <<>>)
    [] t \in {"struct", "native"} -> Ret(Declare(s, StructInfo(s.pid, n[3]).name, <<"stype", n[3]>>, TRUE), Nil)
    [] t = "nop" -> Ret(s, Nil)
    [] t = "exit" -> Done(s, "exit", "")
    [] OTHER -> Done(s, "spec", "node " \o t)

------------------------------------------------------------------------------
(* Return value s.v to the top frame                                       *)
CallNext(s, nd, f, i, acc) ==    \* evaluate argument i
  LET n == N(s, nd) IN
  IF i > Len(n[4]) THEN Invoke(s, nd, f, acc) ELSE EvP(s, <<"calla", nd, s.env, f, i, acc>>, n[4][i][1])
RECURSIVE PairElems(_,_,_,_)
PairElems(s, q, i, acc) ==
  IF i > Len(q) THEN <<"ok", acc>>
  ELSE IF Kind(s.h, q[i]) \in {"list", "vec"} /\ Len(Elems(s.h, q[i])) = 2 THEN PairElems(s, q, i + 1, acc \o Elems(s.h, q[i]))
  ELSE E("ValueError: Cannot collect key-value pair " \o Quoted(s.pid, s.h, q[i]) \o " into a dict")
RECURSIVE FillDict(_,_,_,_,_)
FillDict(h, q, i, ks, vs) ==
  IF i > Len(q) THEN NewDict(h, ks, vs)
  ELSE LET j == PosOf(h, ks, q[i]) IN
       IF j # 0 THEN FillDict(h, q, i + 2, ks, [vs EXCEPT ![j] = q[i + 1]])
       ELSE FillDict(h, q, i + 2, Append(ks, q[i]), Append(vs, q[i + 1]))
MkDone(s, nd, kind, acc) ==
  CASE kind = "list" -> Res(s, nd, NewList(s.h, acc))
    [] kind = "vec" -> Res(s, nd, NewVec(s.h, acc))
    [] kind = "set" -> Res(s, nd, NewSet(s.h, Uniq(s.h, acc)))
    [] OTHER -> Res(s, nd, FillDict(s.h, acc, 1, <<>>, <<>>))
OpBin(s, nd, op, a, b) == IF op = "." THEN Invoke(s, nd, b, <<a>>) ELSE Res(s, nd, BinOp(s.pid, s.h, op, a, b))
(* Pattern assignment: the parts are read and stored from right to left,
   each part is read just before it is stored.  subs: the target values    *)
StoreTo(s, nd, tg, v, subs) ==
  CASE tg[1] = "n" -> Store(s, nd, tg[2], v)
    [] tg[1] = "ti" -> Res(s, nd, SetIndex(s.pid, s.h, subs[tg[2]], subs[tg[3]], v))
    [] OTHER -> SetField(s, nd, subs[tg[2]], tg[3], v)
RECURSIVE AssignPat(_,_,_,_,_), AssignParts(_,_,_,_,_,_,_)
AssignParts(s, nd, ps, v, i, r, subs) ==
  IF i = 0 THEN Ret(s, v)
  ELSE LET next(t) == IF t.m = "done" THEN t ELSE AssignParts(t, nd, ps, v, i - 1, r, subs)
           at == IF r # 0 /\ i > r THEN -(Len(ps) - i + 1) ELSE i - 1 IN
       IF i = r /\ ps[i][2] = "_" THEN next(s)
       ELSE IF i = r THEN
         LET hi == Len(ps) - i
             g == Slice(s.pid, s.h, v, I(i - 1), IF hi = 0 THEN Nil ELSE I(-hi), Nil) IN
         IF g[1] = "err" THEN Err(s, nd, g[2])
         ELSE next(Store([s EXCEPT !.h = g[3]], nd, ps[i][2], g[2]))
       ELSE IF ps[i][1] = "_" THEN next(s)
       ELSE LET g == PartAt(s, v, at) IN
            IF g[1] = "err" THEN Err(s, nd, g[2])
            ELSE IF ps[i][1] = "p" THEN next(AssignPat(s, nd, ps[i], g[2], subs))
            ELSE next(StoreTo(s, nd, ps[i], g[2], subs))
AssignPat(s, nd, pat, v, subs) ==
  LET ps == pat[2]
      r == IF \E i \in DOMAIN ps : ps[i][1] = "rest" THEN CHOOSE i \in DOMAIN ps : ps[i][1] = "rest" ELSE 0
      need == IF r = 0 THEN Len(ps) ELSE Len(ps) - 1
      ln == LenOf(s.pid, s.h, v)
  IN IF ln[1] = "err" THEN Err(s, nd, ln[2])
     ELSE IF (r = 0 /\ ln[2] # I(need)) \/ (r # 0 /\ ILt(ln[2], I(need))) THEN Err(s, nd, UnpackErr(s, v, ln[2], need, r # 0)[2])
     ELSE AssignParts(s, nd, ps, v, Len(ps), r, subs)

StepV(s0) ==
  IF s0.k = <<>> THEN Done(s0, "exit", "")
  ELSE
  LET fr == s0.k[1]  kd == fr[1]  nd == fr[2]
      n == N(s0, nd)
      v == s0.v
      s == [s0 EXCEPT !.k = s0.k[2], !.env = IF kd = "seq" THEN s0.env ELSE fr[3]]
      env == s.env
  IN
  CASE kd = "seq" ->
         LET i == fr[4] IN
         IF i < Len(n[3]) THEN EvP(s, <<"seq", nd, <<>>, i + 1>>, n[3][i + 1])
         ELSE Ret(s, IF n[4] /\ N(s, n[3][i])[1] = "expr" THEN v ELSE Nil)
    [] kd = "bin1" -> EvP(s, <<"bin2", nd, env, v>>, n[5])
    [] kd = "bin2" -> Res(s, nd, BinOp(s.pid, s.h, n[3], fr[4], v))
    [] kd = "callf" -> CallNext(s, nd, v, 1, <<>>)
    [] kd = "calla" ->
         IF n[4][fr[5]][2] THEN
           LET q == ToSeq(s.pid, s.h, v) IN
           IF q[1] = "err" THEN Err(s, nd, q[2]) ELSE CallNext([s EXCEPT !.h = q[3]], nd, fr[4], fr[5] + 1, fr[6] \o q[2])
         ELSE CallNext(s, nd, fr[4], fr[5] + 1, Append(fr[6], v))
    [] kd = "ret" -> Ret(s, v)
    [] kd = "blk" -> Ret(s, Nil)
    [] kd = "idx1" -> EvP(s, <<"idx2", nd, env, v>>, n[4])
    [] kd = "idx2" -> Index(s, nd, fr[4], v)
    [] kd = "asg" -> Store(s, nd, n[3], v)
    [] kd = "let" -> LET q == Match(s, n[3], v) IN
         IF q[1] = "err" THEN Err(s, nd, q[2]) ELSE Ret(DeclareAll(q[3], Binds(q[2]), 1, n[5]), Nil)
    [] kd = "if" -> IF Truthy(s.h, v) THEN Ev(s, n[4]) ELSE IF n[5] = 0 THEN Ret(s, Nil) ELSE Ev(s, n[5])
    [] kd = "cmp1" -> EvP(s, <<"cmp", nd, env, 1, v>>, n[4][1][2])
    [] kd = "cmp" ->
         LET i == fr[4]  r == BinOp(s.pid, s.h, n[4][i][1], fr[5], v) IN
         IF r[1] = "err" \/ i = Len(n[4]) \/ ~Truthy(s.h, r[2]) THEN Res(s, nd, r)
         ELSE EvP(s, <<"cmp", nd, env, i + 1, v>>, n[4][i + 1][2])
    [] kd = "and" -> IF Truthy(s.h, v) THEN Ev(s, n[4]) ELSE Ret(s, v)
    [] kd = "or" -> IF Truthy(s.h, v) THEN Ret(s, v) ELSE Ev(s, n[4])
    [] kd = "un" -> Res(s, nd, UnOp(s.pid, s.h, n[3], v))
    [] kd = "tern" -> Ev(s, IF Truthy(s.h, v) THEN n[4] ELSE n[5])
    [] kd = "comp1" -> EvP(s, <<"comp2", nd, env, v>>, n[4])
    [] kd = "comp2" -> Invoke(s, nd, v, <<fr[4]>>)
    [] kd = "mk" ->
         LET i == fr[4] IN
         IF i = 0 THEN MkDone(s, nd, n[3], <<>>)
         ELSE LET q == IF ~n[4][i][2] THEN <<"ok", <<v>>, s.h>> ELSE ToSeq(s.pid, s.h, v)
                  e == IF q[1] = "ok" /\ n[4][i][2] /\ n[3] = "dict" THEN PairElems([s EXCEPT !.h = q[3]], q[2], 1, <<>>) ELSE q
              IN IF e[1] = "err" THEN Err(s, nd, e[2])
                 ELSE LET s2 == [s EXCEPT !.h = q[3]]  acc == fr[5] \o e[2] IN
                      IF i = Len(n[4]) THEN MkDone(s2, nd, n[3], acc)
                      ELSE EvP(s2, <<"mk", nd, env, i + 1, acc>>, n[4][i + 1][1])
    [] kd = "slc" ->
         (* node parts 3..6: value, low, high, step; 0 = absent *)
         LET i == fr[4]  acc == IF i = 0 /\ n[1] = "mkslc" THEN <<Nil>> ELSE Append(fr[5], v) IN
         IF i = 3 THEN
            IF n[1] = "slc" THEN Res(s, nd, Slice(s.pid, s.h, acc[1], acc[2], acc[3], acc[4]))
            ELSE LET bad == SelectSeq(<<acc[2], acc[3], acc[4]>>, LAMBDA q: q # Nil /\ ~IsIntLike(q)) IN
                 IF bad # <<>> THEN Err(s, nd, ErrInt(s.pid, s.h, bad[1])[2])
                 ELSE Ret(s, <<"slice", acc[2], acc[3], acc[4]>>)
         ELSE LET s2 == Push(s, <<"slc", nd, env, i + 1, acc>>) IN
              IF n[4 + i] = 0 THEN Ret(s2, Nil) ELSE Ev(s2, n[4 + i])
    [] kd = "getf" -> GetField(s, nd, v, n[4])
    [] kd = "sec" -> Ret(s, <<"pnat", n[3], <<v>>>>)
    [] kd = "opa" -> OpBin(Push(s, <<"asg2", nd, env>>), nd, n[3], fr[4], v)
    [] kd = "asg2" -> Store(s, nd, n[4], v)
    [] kd = "seti" ->
         LET acc == Append(fr[4], v) IN
         IF Len(acc) < 3 THEN EvP(s, <<"seti", nd, env, acc>>, n[3 + Len(acc)])
         ELSE LET r == SetIndex(s.pid, s.h, acc[1], acc[2], acc[3]) IN
              IF r[1] = "err" THEN Err(s, nd, r[2]) ELSE Ret([s EXCEPT !.h = r[3]], acc[1])
    [] kd = "opseti" ->      \* array, index, then the element, then the operand
         LET acc == Append(fr[4], v) IN
         CASE Len(acc) = 1 -> EvP(s, <<"opseti", nd, env, acc>>, n[5])
           [] Len(acc) = 2 -> Index(Push(s, <<"opseti", nd, env, acc>>), nd, acc[1], acc[2])
           [] Len(acc) = 3 -> EvP(s, <<"opseti", nd, env, acc>>, n[6])
           [] Len(acc) = 4 -> OpBin(Push(s, <<"opseti", nd, env, acc>>), nd, n[3], acc[3], v)
           [] OTHER -> LET r == SetIndex(s.pid, s.h, acc[1], acc[2], v) IN
                       IF r[1] = "err" THEN Err(s, nd, r[2]) ELSE Ret([s EXCEPT !.h = r[3]], acc[1])
    [] kd = "setf1" -> EvP(s, <<"setf2", nd, env, v>>, n[5])
    [] kd = "setf2" -> SetField(s, nd, fr[4], n[4], v)
    [] kd = "opsetf1" -> GetField(Push(s, <<"opsetf2", nd, env, v>>), nd, v, n[5])
    [] kd = "opsetf2" -> EvP(s, <<"opsetf3", nd, env, fr[4], v>>, n[6])
    [] kd = "opsetf3" -> OpBin(Push(s, <<"opsetf4", nd, env, fr[4]>>), nd, n[3], fr[5], v)
    [] kd = "opsetf4" -> SetField(s, nd, fr[4], n[5], v)
    [] kd = "pasub" ->
         LET acc == Append(fr[4], v) IN
         IF Len(acc) < Len(n[4]) THEN EvP(s, <<"pasub", nd, env, acc>>, n[4][Len(acc) + 1])
         ELSE EvP(s, <<"pasg", nd, env, acc>>, n[5])
    [] kd = "pasg" -> LET r == AssignPat(s, nd, n[3], v, fr[4]) IN IF r.m = "done" THEN r ELSE Ret(r, v)
    [] kd = "wc" -> IF Truthy(s.h, v) THEN EvP(s, <<"lp", nd, env>>, n[4])
                    ELSE IF n[5] = 0 THEN Ret(s, Nil) ELSE Ev(s, n[5])
    [] kd = "dwc" -> IF Truthy(s.h, v) THEN EvP(s, <<"lp", nd, env>>, n[3])
                     ELSE IF n[5] = 0 THEN Ret(s, Nil) ELSE Ev(s, n[5])
    [] kd = "fori" -> LET r == MkIter(s.pid, s.h, v) IN
         IF r[1] = "err" THEN Err(s, nd, r[2]) ELSE ForNext(s, nd, env, r[2])
    [] kd = "lp" ->          \* the body of a loop is finished, or was continued
         CASE n[1] = "for" -> ForNext(s, nd, env, fr[4])
           [] n[1] = "while" -> EvP(s, <<"wc", nd, env>>, n[3])
           [] n[1] = "dow" -> IF n[4] = 0 THEN (IF n[5] = 0 THEN Ret(s, Nil) ELSE Ev(s, n[5])) ELSE EvP(s, <<"dwc", nd, env>>, n[4])
           [] OTHER -> EvP(s, <<"lp", nd, env>>, n[3])
    [] kd = "rtn" -> Return(s, v)
    [] kd = "asl" -> EvP(s, <<"asr", nd, env, v>>, N(s, n[3])[4][1][2])
    [] kd = "asr" ->
         LET c == N(s, n[3])[4][1]  r == BinOp(s.pid, s.h, c[1], fr[4], v) IN
         IF Truthy(s.h, r[2]) THEN Ret(s, Nil)
         ELSE AssertFail(s, nd, env, "Expected " \o Repr(s.pid, s.h, {}, fr[4]) \o " " \o c[1] \o " " \o Repr(s.pid, s.h, {}, v))
    [] kd = "ast" -> IF Truthy(s.h, v) THEN Ret(s, Nil) ELSE AssertFail(s, nd, env, "")
    [] kd = "asm" -> AssertErr(s, nd, fr[4], IF v = Nil THEN v ELSE S(StrOf(s.pid, s.h, v)))
    [] kd = "deco" -> Decorators(s, nd, Append(fr[4], v))
    [] kd = "deco2" -> Decorate(s, nd, fr[4] - 1, fr[5], v)
    [] kd = "dfa" -> Defaults(s, fr[4], Append(fr[5], v))
    [] kd = "dflt" ->
         LET d == fr[4]  j == PosOf(s.h, s.h[d[2]][2], fr[5]) IN
         IF j # 0 THEN Ret(s, s.h[d[2]][3][j]) ELSE Ret([s EXCEPT !.h = DictPut(s.h, d, fr[5], v)], v)
    [] kd = "memo" ->
         LET c == s.h[fr[4][2]]
             hit == {i \in DOMAIN c[3] : Len(c[3][i]) = Len(fr[5]) /\ EqSeq(s.h, c[3][i], fr[5], 1)}
         IN IF hit # {} THEN Ret(s, c[4][CHOOSE i \in hit : TRUE])
            ELSE Ret([s EXCEPT !.h[fr[4][2]] = <<"memo", c[2], Append(c[3], fr[5]), Append(c[4], v)>>], v)
    [] kd = "hof" -> HofBack(s, fr)
    [] OTHER -> Done(s, "spec", "frame " \o kd)

Step(s) == LET r == IF s.m = "e" THEN StepE(s) ELSE StepV(s) IN [r EXCEPT !.nst = @ + 1]

Start(p) == [pid |-> p, m |-> "e", x |-> Progs[p].root, v |-> Nil, env |-> EMPTYMAP, k |-> <<>>, cells |-> <<>>,
             h |-> <<>>, gl |-> EMPTYMAP, op |-> 0, fi |-> 0, ip |-> 0, st |-> "", er |-> "", nst |-> 0]

------------------------------------------------------------------------------
(* The verdict on a finished run                                           *)
StartsWith(a, b) == Len(a) >= Len(b) /\ SubSeq(a, 1, Len(b)) = b
Verdict(s) ==
  LET o == Obs(s) IN
  CASE s.st = "open" -> <<"fuel", "">>
    [] s.st \in {"output", "foreign", "spec", "ask", "refused"} -> <<s.st, s.er>>
    [] s.st # o.st -> <<"status", "the specification ends with " \o s.st \o " " \o s.er>>
    [] s.op # Len(o.out) -> <<"output", "more was printed than expected">>
    [] s.fi # Len(o.ffi) -> <<"foreign", "more foreign calls than expected">>
    [] s.st = "error" /\ (IF o.lines THEN ~StartsWith(o.error, s.er \o "\n") ELSE ~StartsWith(o.error, s.v[2] \o "\n")) -> <<"error", s.er>>
    [] OTHER -> <<"ok", "">>
=============================================================================
