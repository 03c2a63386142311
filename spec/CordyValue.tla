----------------------------- MODULE CordyValue -----------------------------
(***************************************************************************)
(* Cordy values, the heap, equality, ordering and textual notation.        *)
(*                                                                         *)
(*  <<"nil">>  <<"bool", b>>  <<"int", n>>  <<"big", limbs>>               *)
(*  <<"str", s>>  <<"cpx", re, im>>  <<"rat", num, den>> (big integers)    *)
(*  <<"ref", a>>           a collection or struct instance: cell a of heap *)
(*  <<"range", a, b, c>>   c = 0 for the empty range                       *)
(*  <<"enum", v>>  <<"slice", lo, hi, step>>                               *)
(*  <<"stype", sid>>       a struct constructor or a module                *)
(*  <<"fn", node, env>>    a user function (closure over env)              *)
(*  <<"pfn", f, args>>     partially applied user function                 *)
(*  <<"nat", name>>  <<"pnat", name, args>>  <<"getf", field>>             *)
(*                                                                         *)
(* Heap cells:  <<"list", seq>> <<"vec", seq>> <<"set", seq>>              *)
(*   <<"dict", keys, vals, default>>  <<"heap", seq>>                      *)
(*   <<"struct", sid, seq>>  <<"memo", f, keys, vals>>                     *)
(***************************************************************************)
EXTENDS CordyBig, CordyData, FiniteSets

Nil == <<"nil">>
B(b) == <<"bool", b>>
S(s) == <<"str", s>>
Ref(a) == <<"ref", a>>
TRUEV == <<"bool", TRUE>>
FALSEV == <<"bool", FALSE>>

IsIntT(v) == v[1] \in {"int", "big"}
IsIntLike(v) == v[1] \in {"int", "big", "bool"}
AsInt(v) == IF v[1] = "bool" THEN (IF v[2] THEN <<"int", 1>> ELSE <<"int", 0>>) ELSE v
IsStr(v) == v[1] = "str"
Kind(h, v) == IF v[1] = "ref" THEN h[v[2]][1] ELSE v[1]
IsKind(h, v, k) == v[1] = "ref" /\ h[v[2]][1] = k
Cell(h, v) == h[v[2]]
Elems(h, v) == h[v[2]][2]                  \* list, vec, set, heap

Alloc(h, c) == Append(h, c)
Last(h) == Ref(Len(h))

(* struct and function meta data of the program under execution            *)
StructInfo(p, sid) == Progs[p].structs[sid]
Node(p, n) == Progs[p].nodes[n]

RECURSIVE JoinFrom(_,_,_)
JoinFrom(ss, sep, i) == IF i > Len(ss) THEN "" ELSE
                        (IF i = 1 THEN "" ELSE sep) \o ss[i] \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)

IndexOfSeq(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN CHOOSE i \in DOMAIN s : s[i] = x ELSE 0

------------------------------------------------------------------------------
(* Type names                                                              *)
KindName == [list |-> "list", vec |-> "vector", set |-> "set", dict |-> "dict", heap |-> "heap",
             struct |-> "struct", memo |-> "memoized", nil |-> "nil", bool |-> "bool", int |-> "int",
             big |-> "int", str |-> "str", cpx |-> "complex", rat |-> "rational", range |-> "range",
             enum |-> "enumerate", slice |-> "slice", stype |-> "struct type", fn |-> "function",
             pfn |-> "partial function", nat |-> "native function", pnat |-> "partial native function",
             getf |-> "get field", ffi |-> "function"]
(* a user function that captures a local variable is a `closure`           *)
IsClosure(p, v) == \E x \in DOMAIN v[3] : \E i \in DOMAIN Node(p, v[2])[8] : Node(p, v[2])[8][i] = x
TypeName(p, h, v) == IF v[1] = "fn" /\ IsClosure(p, v) THEN "closure" ELSE KindName[Kind(h, v)]

IsIterable(h, v) == Kind(h, v) \in {"str", "list", "vec", "set", "dict", "heap", "range", "enum"}
IsEvaluable(h, v) == v[1] \in {"fn", "ffi", "pfn", "nat", "pnat", "stype", "slice"}

------------------------------------------------------------------------------
(* Ranges: range(a, b, c) is empty iff c = 0 in its stored form            *)
MkRange(a, b, c) ==
  IF IZero(c) THEN <<"err", "ValueError: 'step' argument cannot be zero">>
  ELSE IF (ILt(a, b) /\ ~INegative(c)) \/ (ILt(b, a) /\ INegative(c)) THEN <<"ok", <<"range", a, b, c>>>>
  ELSE <<"ok", <<"range", I(0), I(0), I(0)>>>>
RangeLen(r) == IF IZero(r[4]) THEN I(0)
               ELSE LET d == IAbs(ISub(r[3], r[2]))  c == IAbs(r[4]) IN IDivFloor(ISub(IAdd(d, c), I(1)), c)
RangeAt(r, i) == IAdd(r[2], IMul(r[4], i))               \* i-th element, from 0
RangeHas(r, x) ==
   /\ ~IZero(r[4])
   /\ IF INegative(r[4]) THEN ILe(x, r[2]) /\ ILt(r[3], x) ELSE ILe(r[2], x) /\ ILt(x, r[3])
   /\ IZero(IModFloor(ISub(x, r[2]), r[4]))

------------------------------------------------------------------------------
(* Equality                                                                *)
RECURSIVE Eq(_,_,_), EqSeq(_,_,_,_), SeqHas(_,_,_,_)
EqSeq(h, a, b, i) == IF i > Len(a) THEN TRUE ELSE Eq(h, a[i], b[i]) /\ EqSeq(h, a, b, i + 1)
SeqHas(h, s, x, i) == IF i > Len(s) THEN 0 ELSE IF Eq(h, s[i], x) THEN i ELSE SeqHas(h, s, x, i + 1)
PosOf(h, s, x) == SeqHas(h, s, x, 1)
Member(h, s, x) == SeqHas(h, s, x, 1) # 0
CountIn(h, s, x) == Cardinality({i \in DOMAIN s : Eq(h, s[i], x)})
Eq(h, a, b) ==
  IF a[1] = "ref" /\ b[1] = "ref" THEN
    IF a[2] = b[2] THEN TRUE
    ELSE LET x == h[a[2]]  y == h[b[2]] IN
      IF x[1] # y[1] THEN FALSE
      ELSE CASE x[1] \in {"list", "vec"} -> Len(x[2]) = Len(y[2]) /\ EqSeq(h, x[2], y[2], 1)
             [] x[1] = "set" -> Len(x[2]) = Len(y[2]) /\ \A i \in DOMAIN x[2] : Member(h, y[2], x[2][i])
             [] x[1] = "dict" -> Len(x[2]) = Len(y[2]) /\ \A i \in DOMAIN x[2] :
                     LET j == PosOf(h, y[2], x[2][i]) IN j # 0 /\ Eq(h, x[3][i], y[3][j])
             [] x[1] = "heap" -> Len(x[2]) = Len(y[2]) /\ \A i \in DOMAIN x[2] :
                     CountIn(h, x[2], x[2][i]) = CountIn(h, y[2], x[2][i])
             [] x[1] = "struct" -> x[2] = y[2] /\ EqSeq(h, x[3], y[3], 1)
             [] x[1] = "memo" -> Eq(h, x[2], y[2])          (* the same function, whatever is remembered *)
             [] OTHER -> FALSE
  ELSE IF a[1] # b[1] THEN
    (* a rational equals the integer it denotes *)
    CASE a[1] = "rat" /\ IsIntT(b) -> a[3] = BOne /\ a[2] = BFromI(b)
      [] b[1] = "rat" /\ IsIntT(a) -> b[3] = BOne /\ b[2] = BFromI(a)
      [] OTHER -> FALSE
  ELSE CASE a[1] = "enum" -> Eq(h, a[2], b[2])
         [] a[1] \in {"fn"} -> a[2] = b[2]
         [] a[1] = "pfn" -> a[2][2] = b[2][2] /\ Len(a[3]) = Len(b[3]) /\ EqSeq(h, a[3], b[3], 1)
         [] a[1] = "pnat" -> a[2] = b[2] /\ Len(a[3]) = Len(b[3]) /\ EqSeq(h, a[3], b[3], 1)
         [] OTHER -> a = b

------------------------------------------------------------------------------
(* Ordering: -1, 0, 1; 0 also for values that are not ordered at all       *)
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
RECURSIVE CmpStrFrom(_,_,_)
CmpStrFrom(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF Ch(a, i) = Ch(b, i) THEN CmpStrFrom(a, b, i + 1)
  ELSE Sgn(OrdOf(Ch(a, i)) - OrdOf(Ch(b, i)))
CmpStr(a, b) == IF a = b THEN 0 ELSE CmpStrFrom(a, b, 1)

NumRank(v) == CASE v[1] = "nil" -> 0 [] v[1] = "bool" -> 1 [] OTHER -> 2
NumVal(v) == CASE v[1] = "nil" -> I(0) [] v[1] = "bool" -> AsInt(v) [] OTHER -> v
IsNum(v) == v[1] \in {"nil", "bool", "int", "big", "cpx", "rat"}
ReOf(v) == IF v[1] = "cpx" THEN v[2] ELSE NumVal(v)
RNum(v) == IF v[1] = "rat" THEN v[2] ELSE BFromI(NumVal(v))
ImOf(v) == IF v[1] = "cpx" THEN v[3] ELSE I(0)
(* rationals: a/b <> c/d for positive b, d *)
CmpRat(a, b, c, d) == BCmp(BMul(a, d), BMul(c, b))
CmpNum(a, b) ==
  IF a[1] = "cpx" \/ b[1] = "cpx" THEN
     LET i == ICmp(ImOf(a), ImOf(b)) IN IF i # 0 \/ a[1] # b[1] THEN i ELSE ICmp(a[2], b[2])
  ELSE IF a[1] = "rat" \/ b[1] = "rat" THEN
     CmpRat(RNum(a), IF a[1] = "rat" THEN a[3] ELSE BOne, RNum(b), IF b[1] = "rat" THEN b[3] ELSE BOne)
  ELSE LET i == ICmp(NumVal(a), NumVal(b)) IN IF i # 0 THEN i ELSE Sgn(NumRank(a) - NumRank(b))

RECURSIVE Cmp(_,_,_), CmpSeq(_,_,_,_), MinIdx(_,_,_,_)
(* stable insertion sort *)
RECURSIVE InsertSorted(_,_,_,_), SortFrom(_,_,_,_)
InsertSorted(h, s, x, i) ==      \* s[1..i] are candidates to the right of which x may go
  IF i = 0 \/ Cmp(h, s[i], x) <= 0 THEN SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
  ELSE InsertSorted(h, s, x, i - 1)
SortFrom(h, s, i, acc) == IF i > Len(s) THEN acc ELSE SortFrom(h, s, i + 1, InsertSorted(h, acc, s[i], Len(acc)))
SortSeqV(h, s) == SortFrom(h, s, 1, <<>>)
CmpSeq(h, a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE LET c == Cmp(h, a[i], b[i]) IN IF c # 0 THEN c ELSE CmpSeq(h, a, b, i + 1)
(* index of the first least element of s[i..]; m is the best so far *)
MinIdx(h, s, i, m) == IF i > Len(s) THEN m
                      ELSE MinIdx(h, s, i + 1, IF m = 0 \/ Cmp(h, s[i], s[m]) < 0 THEN i ELSE m)
Cmp(h, a, b) ==
  IF IsNum(a) /\ IsNum(b) THEN CmpNum(a, b)
  ELSE IF a[1] = "str" /\ b[1] = "str" THEN CmpStr(a[2], b[2])
  ELSE IF a[1] = "ref" /\ b[1] = "ref" THEN
    IF a[2] = b[2] THEN 0
    ELSE LET x == h[a[2]]  y == h[b[2]] IN
      IF x[1] # y[1] THEN 0
      ELSE CASE x[1] \in {"list", "vec", "set", "dict"} -> CmpSeq(h, x[2], y[2], 1)
             [] x[1] = "struct" -> CmpSeq(h, x[3], y[3], 1)
             [] x[1] = "heap" -> CmpSeq(h, SortSeqV(h, x[2]), SortSeqV(h, y[2]), 1)
             [] OTHER -> 0
  ELSE IF a[1] = "range" /\ b[1] = "range" THEN
    LET i == ICmp(a[2], b[2])  j == ICmp(a[3], b[3]) IN IF i # 0 THEN i ELSE IF j # 0 THEN j ELSE ICmp(a[4], b[4])
  ELSE IF a[1] = "enum" /\ b[1] = "enum" THEN Cmp(h, a[2], b[2])
  ELSE 0

(* keeps the first of equal elements *)
RECURSIVE UniqFrom(_,_,_,_)
UniqFrom(h, s, i, acc) == IF i > Len(s) THEN acc
   ELSE UniqFrom(h, s, i + 1, IF Member(h, acc, s[i]) THEN acc ELSE Append(acc, s[i]))
Uniq(h, s) == UniqFrom(h, s, 1, <<>>)

------------------------------------------------------------------------------
(* Notation                                                                *)
EscChar(c) == CASE c = "\\" -> "\\\\" [] c = "\"" -> "\\\"" [] c = "\n" -> "\\n" [] c = "\t" -> "\\t"
                [] c = "\r" -> "\\r" [] OTHER -> c
RECURSIVE EscFrom(_,_)
EscFrom(s, i) == IF i > Len(s) THEN "" ELSE EscChar(Ch(s, i)) \o EscFrom(s, i + 1)
StrRepr(s) == "'" \o EscFrom(s, 1) \o "'"

CpxStr(v) == IF IZero(v[2]) THEN IStr(v[3]) \o "i"
             ELSE IStr(v[2]) \o (IF INegative(v[3]) THEN " - " \o IStr(INeg(v[3])) ELSE " + " \o IStr(v[3])) \o "i"

FnName(p, n) == Node(p, n)[3]
FnRepr(p, n) == (IF Node(p, n)[5] = 0 THEN "native fn " ELSE "fn ") \o Node(p, n)[3] \o "(" \o Join(Node(p, n)[7], ", ") \o ")"
StructRepr(p, sid) == LET si == StructInfo(p, sid) IN
   IF si.module THEN "module " \o si.name ELSE "struct " \o si.name \o "(" \o Join(si.fields, ", ") \o ")"

(* printed argument lists of the native functions *)
NatArgs ==
 [read |-> "", read_line |-> "", print |-> "...", read_text |-> "file", write_text |-> "file, text", env |-> "...",
  argv |-> "", bool |-> "x", int |-> "x, default?", complex |-> "", rational |-> "x", str |-> "x", list |-> "...",
  set |-> "...", dict |-> "...", heap |-> "...", vector |-> "...", function |-> "", iterable |-> "", repr |-> "x",
  eval |-> "expr", typeof |-> "x", monitor |-> "cmd", to_lower |-> "x", to_upper |-> "x",
  replace |-> "pattern, replacer, x", search |-> "pattern, x", trim |-> "x", split |-> "pattern, x",
  join |-> "joiner, iter", char |-> "x", ord |-> "x", hex |-> "x", bin |-> "x", len |-> "x",
  range |-> "start, stop, step", enumerate |-> "iter", sum |-> "...", min |-> "...", max |-> "...",
  min_by |-> "key_or_cmp, iter", max_by |-> "key_or_cmp, iter", map |-> "f, iter", filter |-> "f, iter",
  flat_map |-> "f, iter", concat |-> "iter", zip |-> "...", reduce |-> "f, iter", sort |-> "...",
  sort_by |-> "f, iter", group_by |-> "f, iter", reverse |-> "...", permutations |-> "n, iter",
  combinations |-> "n, iter", any |-> "f, it", all |-> "f, it", memoize |-> "f", union |-> "other, this",
  intersect |-> "other, this", difference |-> "other, this", counter |-> "it", copy |-> "it", peek |-> "collection",
  pop |-> "collection", pop_front |-> "collection", push |-> "value, collection", push_front |-> "value, collection",
  insert |-> "index, value, collection", remove |-> "param, collection", clear |-> "collection",
  find |-> "predicate, collection", rfind |-> "predicate, collection",
  index_of |-> "value_or_predicate, collection", rindex_of |-> "value_or_predicate, collection",
  default |-> "value, dictionary", keys |-> "dictionary", values |-> "dictionary", abs |-> "x", sqrt |-> "x",
  gcd |-> "...", lcm |-> "...", count_ones |-> "x", count_zeros |-> "x", real |-> "x", imag |-> "x",
  numer |-> "x", denom |-> "x"]
IsOpName(f) == Ch(f, 1) = "("
(* operator functions with swapped operands are named "(+)~" internally *)
ShownName(f) == IF Ch(f, Len(f)) = "~" THEN SubSeq(f, 1, Len(f) - 1) ELSE f
NatRepr(f) == "fn " \o ShownName(f) \o "(" \o
   (IF f \in {"(-)", "(!)", "(not)"} THEN "x" ELSE IF IsOpName(f) THEN "lhs, rhs" ELSE NatArgs[f]) \o ")"

RECURSIVE Repr(_,_,_,_), ReprSeq(_,_,_,_), StrOf(_,_,_)
ReprSeq(p, h, g, s) == Join([i \in DOMAIN s |-> Repr(p, h, g, s[i])], ", ")
(* g: the collections being printed already (cycles are cut there) *)
Repr(p, h, g, v) ==
  CASE v[1] = "nil" -> "nil"
    [] v[1] = "bool" -> IF v[2] THEN "true" ELSE "false"
    [] IsIntT(v) -> IStr(v)
    [] v[1] = "str" -> StrRepr(v[2])
    [] v[1] = "cpx" -> CpxStr(v)
    [] v[1] = "rat" -> BStr(v[2]) \o " / " \o BStr(v[3])
    [] v[1] = "ref" ->
       LET c == h[v[2]]  cyc == v[2] \in g  g2 == g \cup {v[2]} IN
       CASE c[1] = "list" -> IF cyc THEN "[...]" ELSE "[" \o ReprSeq(p, h, g2, c[2]) \o "]"
         [] c[1] = "vec" -> IF cyc THEN "(...)" ELSE "(" \o ReprSeq(p, h, g2, c[2]) \o ")"
         [] c[1] = "set" -> IF cyc THEN "{...}" ELSE "{" \o ReprSeq(p, h, g2, c[2]) \o "}"
         [] c[1] = "heap" -> IF cyc THEN "[...]" ELSE "[" \o ReprSeq(p, h, g2, c[2]) \o "]"
         [] c[1] = "dict" -> IF cyc THEN "{...}" ELSE
              "{" \o Join([i \in DOMAIN c[2] |-> Repr(p, h, g2, c[2][i]) \o ": " \o Repr(p, h, g2, c[3][i])], ", ") \o "}"
         [] c[1] = "struct" -> LET si == StructInfo(p, c[2]) IN
              IF cyc THEN si.name \o "(...)" ELSE
              si.name \o "(" \o Join([i \in DOMAIN c[3] |-> si.fields[i] \o "=" \o Repr(p, h, g2, c[3][i])], ", ") \o ")"
         [] c[1] = "memo" -> "@memoize " \o Repr(p, h, g, c[2])
         [] OTHER -> "?"
    [] v[1] = "range" -> IF IZero(v[4]) THEN "range(empty)"
                         ELSE "range(" \o IStr(v[2]) \o ", " \o IStr(v[3]) \o ", " \o IStr(v[4]) \o ")"
    [] v[1] = "enum" -> "enumerate(" \o Repr(p, h, g, v[2]) \o ")"
    [] v[1] = "slice" -> LET t(x) == IF x = Nil THEN "" ELSE IStr(AsInt(x)) IN
         IF v[4] = Nil THEN "[" \o t(v[2]) \o ":" \o t(v[3]) \o "]"
         ELSE "[" \o t(v[2]) \o ":" \o t(v[3]) \o ":" \o t(v[4]) \o "]"
    [] v[1] = "stype" -> StructRepr(p, v[2])
    [] v[1] = "fn" -> FnRepr(p, v[2])
    [] v[1] = "ffi" -> FnRepr(p, v[2])
    [] v[1] = "pfn" -> Repr(p, h, g, v[2])
    [] v[1] = "nat" -> NatRepr(v[2])
    [] v[1] = "pnat" -> NatRepr(v[2])
    [] v[1] = "getf" -> "(->)"
    [] OTHER -> "?"
StrOf(p, h, v) ==
  CASE v[1] = "str" -> v[2]
    [] v[1] \in {"fn", "ffi"} -> FnName(p, v[2])
    [] v[1] = "pfn" -> StrOf(p, h, v[2])
    [] v[1] \in {"nat", "pnat"} -> ShownName(v[2])
    [] OTHER -> Repr(p, h, {}, v)

Quoted(p, h, v) == "'" \o StrOf(p, h, v) \o "' of type '" \o TypeName(p, h, v) \o "'"

------------------------------------------------------------------------------
Truthy(h, v) ==
  CASE v[1] = "nil" -> FALSE
    [] v[1] = "bool" -> v[2]
    [] v[1] = "int" -> v[2] # 0
    [] v[1] = "str" -> v[2] # ""
    [] v[1] = "ref" -> IF h[v[2]][1] \in {"list", "vec", "set", "dict", "heap"} THEN h[v[2]][2] # <<>> ELSE TRUE
    [] v[1] = "range" -> ~IZero(v[4])
    [] v[1] = "enum" -> (CASE v[2][1] = "str" -> v[2][2] # ""
                           [] v[2][1] = "ref" -> IF h[v[2][2]][1] \in {"list", "vec", "set", "dict", "heap"} THEN h[v[2][2]][2] # <<>> ELSE TRUE
                           [] v[2][1] = "range" -> ~IZero(v[2][4])
                           [] OTHER -> TRUE)
    [] OTHER -> TRUE
=============================================================================
