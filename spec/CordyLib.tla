------------------------------ MODULE CordyLib ------------------------------
(***************************************************************************)
(* Operators and the library functions that call nothing back.             *)
(* Results are <<"ok", value, heap>> or <<"err", message>>.                *)
(* p is the program (for struct names), h the heap.                        *)
(***************************************************************************)
EXTENDS CordyValue, FiniteSets

OK(v, h) == <<"ok", v, h>>
E(m) == <<"err", m>>
NewList(h, s) == OK(Ref(Len(h) + 1), Append(h, <<"list", s>>))
NewVec(h, s)  == OK(Ref(Len(h) + 1), Append(h, <<"vec", s>>))
NewSet(h, s)  == OK(Ref(Len(h) + 1), Append(h, <<"set", s>>))
NewDict(h, ks, vs) == OK(Ref(Len(h) + 1), Append(h, <<"dict", ks, vs, <<>>>>))
SetElems(h, v, s) == [h EXCEPT ![v[2]][2] = s]

ErrInt(p, h, v) == E("TypeError: Expected " \o Quoted(p, h, v) \o " to be a int")
ErrStr(p, h, v) == E("TypeError: Expected " \o Quoted(p, h, v) \o " to be a string")
ErrIter(p, h, v) == E("TypeError: Expected " \o Quoted(p, h, v) \o " to be an iterable")
ErrList(p, h, v) == E("TypeError: Expected " \o Quoted(p, h, v) \o " to be a list")
ErrSet(p, h, v) == E("TypeError: Expected " \o Quoted(p, h, v) \o " to be a set")
ErrDict(p, h, v) == E("TypeError: Expected " \o Quoted(p, h, v) \o " to be a dict")
ErrFunc(p, h, v) == E("TypeError: Expected " \o Quoted(p, h, v) \o " to be a function")
ErrEmpty(f) == E("ValueError: Expected '" \o f \o "' argument to be a non-empty iterable")
NotFunc(p, h, v) == "Tried to evaluate " \o Repr(p, h, {}, v) \o " but it is not a function."
OOB(i, n) == E("Index '" \o IStr(i) \o "' is out of bounds for list of length [0, " \o TLCStr(n) \o ")")

------------------------------------------------------------------------------
(* Complex integers: normalised so that a zero imaginary part is an int    *)
MkCpx(re, im) == IF IZero(im) THEN re ELSE <<"cpx", re, im>>
Re(v) == IF v[1] = "cpx" THEN v[2] ELSE AsInt(v)
Im(v) == IF v[1] = "cpx" THEN v[3] ELSE I(0)
CMul(a, b) == MkCpx(ISub(IMul(Re(a), Re(b)), IMul(Im(a), Im(b))), IAdd(IMul(Re(a), Im(b)), IMul(Im(a), Re(b))))
CDiv(a, b) == LET n == IAdd(IMul(Re(b), Re(b)), IMul(Im(b), Im(b))) IN
  MkCpx(IDivFloor(IAdd(IMul(Re(a), Re(b)), IMul(Im(a), Im(b))), n),
        IDivFloor(ISub(IMul(Im(a), Re(b)), IMul(Re(a), Im(b))), n))
RECURSIVE CPow(_,_)
CPow(a, n) == IF n = 0 THEN I(1) ELSE IF n % 2 = 1 THEN CMul(a, CPow(a, n - 1)) ELSE LET x == CPow(a, n \div 2) IN CMul(x, x)

(* Rationals in lowest terms with a positive denominator                   *)
MkRat(n, d) == LET g == NGcd(n[2], d[2]) IN
   IF BIsZero(n) THEN <<"rat", BZero, BOne>>
   ELSE <<"rat", BMk(n[1] # d[1], NDivMod(n[2], g)[1]), BMk(FALSE, NDivMod(d[2], g)[1])>>
Num(v) == IF v[1] = "rat" THEN v[2] ELSE BFromI(AsInt(v))
Den(v) == IF v[1] = "rat" THEN v[3] ELSE BOne
RatOf(v) == <<"rat", Num(v), Den(v)>>
RAdd(a, b) == MkRat(BAdd(BMul(Num(a), Den(b)), BMul(Num(b), Den(a))), BMul(Den(a), Den(b)))
RSub(a, b) == MkRat(BSub(BMul(Num(a), Den(b)), BMul(Num(b), Den(a))), BMul(Den(a), Den(b)))
RMul(a, b) == MkRat(BMul(Num(a), Num(b)), BMul(Den(a), Den(b)))
RDiv(a, b) == MkRat(BMul(Num(a), Den(b)), BMul(Den(a), Num(b)))
BPow(a, n) == BMk(a[1] /\ n % 2 = 1, NPow(a[2], n))
RPow(a, e) == IF e >= 0 THEN MkRat(BPow(Num(a), e), BPow(Den(a), e))
              ELSE MkRat(BPow(Den(a), -e), BPow(Num(a), -e))

------------------------------------------------------------------------------
RECURSIVE RepStr(_,_), RepSeq(_,_)
RepStr(s, n) == IF n = 0 THEN "" ELSE s \o RepStr(s, n - 1)
RepSeq(s, n) == IF n = 0 THEN <<>> ELSE s \o RepSeq(s, n - 1)

RECURSIVE FindSub(_,_,_)
(* least i >= start with t at s[i..], or 0 *)
FindSub(s, t, i) == IF i + Len(t) - 1 > Len(s) THEN 0
                    ELSE IF SubSeq(s, i, i + Len(t) - 1) = t THEN i ELSE FindSub(s, t, i + 1)
Contains(s, t) == t = "" \/ FindSub(s, t, 1) # 0

Scalar(a) == a[1]
IL(a, b) == IsIntLike(a) /\ IsIntLike(b)
IC(a, b) == (IsIntLike(a) \/ a[1] = "cpx") /\ (IsIntLike(b) \/ b[1] = "cpx")
IR(a, b) == (IsIntLike(a) \/ a[1] = "rat") /\ (IsIntLike(b) \/ b[1] = "rat")

BinErr(p, h, op, a, b) == E("TypeError: Operator '" \o op \o "' is not supported for arguments of type "
                            \o TypeName(p, h, a) \o " and " \o TypeName(p, h, b))
NegErr(p, h, op, a, n) == E("ValueError: Operator '" \o op \o "' is not supported for arguments of type "
                            \o TypeName(p, h, a) \o " and negative integer " \o IStr(n))

IsTypeNat == [bool |-> {"bool"}, int |-> {"int", "big", "bool"}, complex |-> {"int", "big", "bool", "cpx"},
              rational |-> {"int", "big", "bool", "rat"}, str |-> {"str"},
              function |-> {"fn", "ffi", "pfn", "nat", "pnat", "stype", "slice"}, list |-> {"list"}, set |-> {"set"},
              dict |-> {"dict"}, vector |-> {"vec"}, heap |-> {"heap"},
              iterable |-> {"str", "list", "set", "dict", "heap", "vec", "range", "enum"}]
IsErr(p, h, a, b) == E("TypeError: " \o Quoted(p, h, b) \o " is not a type and cannot be used with binary 'is' on " \o Quoted(p, h, a))
IsOp(p, h, a, b, inv) ==
  CASE b[1] = "nil" -> OK(B((a = Nil) # inv), h)
    [] b[1] = "stype" -> OK(B((IsKind(h, a, "struct") /\ h[a[2]][2] = b[2]) # inv), h)
    [] b[1] = "nat" -> IF b[2] = "any" THEN OK(B(~inv), h)
                       ELSE IF b[2] \in DOMAIN IsTypeNat THEN OK(B((Kind(h, a) \in IsTypeNat[b[2]]) # inv), h)
                       ELSE IsErr(p, h, a, b)
    [] OTHER -> IsErr(p, h, a, b)
InOp(p, h, a, b, inv) ==
  LET R(x) == OK(B(x # inv), h) IN
  CASE a[1] = "str" /\ b[1] = "str" -> R(Contains(b[2], a[2]))
    [] IsIntLike(a) /\ b[1] = "range" -> R(RangeHas(b, AsInt(a)))
    [] b[1] = "ref" /\ h[b[2]][1] \in {"list", "set", "dict", "heap", "vec"} -> R(Member(h, h[b[2]][2], a))
    [] OTHER -> BinErr(p, h, "in", a, b)

FilterSeq(s, T(_)) == SelectSeq(s, T)

(* format specifications: %[0]?[width]?(d|x|b|s) *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE PadLeft(_,_,_), PadRight(_,_)
PadLeft(s, w, c) == IF Len(s) >= w THEN s ELSE PadLeft(c \o s, w, c)
PadRight(s, w) == IF Len(s) >= w THEN s ELSE PadRight(s \o " ", w)
ZeroPad(s, w) == IF Len(s) > 0 /\ Ch(s, 1) = "-" THEN "-" \o PadLeft(SubSeq(s, 2, Len(s)), w - 1, "0") ELSE PadLeft(s, w, "0")
RECURSIVE ScanWidth(_,_,_)
(* the width that starts at position i: <<next position, width, bad>> *)
ScanWidth(s, i, w) ==
  IF i > Len(s) \/ Ch(s, i) \notin Digits THEN <<i, w, FALSE>>
  ELSE IF Ch(s, i) = "0" /\ w = 0 THEN <<i, w, TRUE>>
  ELSE ScanWidth(s, i + 1, 10 * w + DigitVal(Ch(s, i)))
RECURSIVE Format(_,_,_,_,_,_)
Format(p, h, s, i, args, out) ==
  IF i > Len(s) THEN
     IF args = <<>> THEN OK(S(out), h)
     ELSE E("ValueError: Not all arguments consumed in format string, next: " \o Quoted(p, h, args[1]))
  ELSE IF Ch(s, i) # "%" THEN Format(p, h, s, i + 1, args, out \o Ch(s, i))
  ELSE IF i < Len(s) /\ Ch(s, i + 1) = "%" THEN Format(p, h, s, i + 2, args, out \o "%")
  ELSE LET zero == i < Len(s) /\ Ch(s, i + 1) = "0"
           w == ScanWidth(s, IF zero THEN i + 2 ELSE i + 1, 0)
           c == IF w[1] > Len(s) THEN "" ELSE Ch(s, w[1])
       IN IF w[3] THEN E("ValueError: Invalid format character '0' in format string")
          ELSE IF c = "" THEN E("ValueError: Expected format character after '%', got end of string")
          ELSE IF c \notin {"d", "x", "b", "s"} THEN E("ValueError: Invalid format character '" \o c \o "' in format string")
          ELSE IF args = <<>> THEN E("ValueError: Not enough arguments for format string")
          ELSE IF c # "s" /\ ~IsIntLike(args[1]) THEN ErrInt(p, h, args[1])
          ELSE LET raw == CASE c = "d" -> IStr(AsInt(args[1])) [] c = "x" -> IHex(AsInt(args[1]))
                            [] c = "b" -> IBin(AsInt(args[1])) [] OTHER -> StrOf(p, h, args[1])
                   txt == IF c = "s" THEN PadRight(raw, w[2])      \* the zero is for numbers
                          ELSE IF zero THEN ZeroPad(raw, w[2]) ELSE PadLeft(raw, w[2], " ")
               IN Format(p, h, s, w[1] + 1, Tail(args), out \o txt)

RECURSIVE BinOp(_,_,_,_,_), VecMap(_,_,_,_,_,_,_), CopyV(_,_,_), CopySeq(_,_,_,_,_)
(* element-wise application; sides "vv", "vs", "sv" *)
VecMap(p, h, op, a, b, i, acc) ==
  LET av == IF Kind(h, a) = "vec" THEN h[a[2]][2] ELSE <<>>
      bv == IF Kind(h, b) = "vec" THEN h[b[2]][2] ELSE <<>>
      both == Kind(h, a) = "vec" /\ Kind(h, b) = "vec"
      n == IF both THEN (IF Len(av) < Len(bv) THEN Len(av) ELSE Len(bv)) ELSE IF Kind(h, a) = "vec" THEN Len(av) ELSE Len(bv)
  IN IF i > n THEN NewVec(h, acc)
     ELSE LET r == BinOp(p, h, op, IF Kind(h, a) = "vec" THEN av[i] ELSE a, IF Kind(h, b) = "vec" THEN bv[i] ELSE b)
          IN IF r[1] = "err" THEN r ELSE VecMap(p, r[3], op, a, b, i + 1, Append(acc, r[2]))

(* deep copy; m: function from copied cells to their copies.  <<value, heap, m>> *)
CopySeq(h, m, s, i, acc) == IF i > Len(s) THEN <<acc, h, m>>
   ELSE LET r == CopyV(h, m, s[i]) IN CopySeq(r[2], r[3], s, i + 1, Append(acc, r[1]))
CopyV(h, m, v) ==
  CASE v[1] = "enum" -> LET r == CopyV(h, m, v[2]) IN <<<<"enum", r[1]>>, r[2], r[3]>>
    [] v[1] # "ref" -> <<v, h, m>>
    [] v[2] \in DOMAIN m -> <<Ref(m[v[2]]), h, m>>
    [] h[v[2]][1] = "memo" -> <<v, h, m>>
    [] OTHER ->
       LET c == h[v[2]]
           new == Len(h) + 1
           m2 == (v[2] :> new) @@ m
           body == IF c[1] = "struct" THEN c[3] ELSE IF c[1] = "dict" THEN c[2] \o c[3] ELSE c[2]
           r == CopySeq(Append(h, c), m2, body, 1, <<>>)
           cell == CASE c[1] = "struct" -> <<"struct", c[2], r[1]>>
                     [] c[1] = "dict" -> <<"dict", SubSeq(r[1], 1, Len(c[2])), SubSeq(r[1], Len(c[2]) + 1, Len(r[1])), <<>>>>
                     [] OTHER -> <<c[1], r[1]>>
       IN <<Ref(new), [r[2] EXCEPT ![new] = cell], r[3]>>
EMPTYMAP == [x \in {} |-> 0]
RECURSIVE RepCopyFrom(_,_,_,_,_)
RepCopyFrom(h, s, n, i, acc) == IF i > n * Len(s) THEN <<acc, h>>
  ELSE LET r == CopyV(h, EMPTYMAP, s[((i - 1) % Len(s)) + 1]) IN RepCopyFrom(r[2], s, n, i + 1, Append(acc, r[1]))
RepCopy(h, s, n) == RepCopyFrom(h, s, n, 1, <<>>)

(* sequences too long for the model: nothing is said about programs which make them *)
Huge(l, n) == n[1] # "int" \/ n[2] > 20000 \/ l > 100000 \/ l * n[2] > 100000
Many(l, n) == n[1] # "int" \/ n[2] > 3000 \/ l > 3000 \/ l * n[2] > 3000
NatOf(n) == IF n[1] = "int" THEN n[2] ELSE 1000000000    \* sizes the model never reaches

BinOp(p, h, op, a, b) ==
  LET ka == Kind(h, a)  kb == Kind(h, b)  vec == ka = "vec" \/ kb = "vec"
      VEC == VecMap(p, h, op, a, b, 1, <<>>)
      BAD == BinErr(p, h, op, a, b)
      x == AsInt(a)  y == AsInt(b)
  IN
  CASE op = "+" ->
         CASE IL(a, b) -> OK(IAdd(x, y), h)
           [] IC(a, b) -> OK(MkCpx(IAdd(Re(a), Re(b)), IAdd(Im(a), Im(b))), h)
           [] IR(a, b) -> OK(RAdd(a, b), h)
           [] ka = "list" /\ kb = "list" -> NewList(h, Elems(h, a) \o Elems(h, b))
           [] ka = "str" -> OK(S(a[2] \o StrOf(p, h, b)), h)
           [] kb = "str" -> OK(S(StrOf(p, h, a) \o b[2]), h)
           [] vec -> VEC
           [] OTHER -> BAD
    [] op = "-" ->
         CASE IL(a, b) -> OK(ISub(x, y), h)
           [] IC(a, b) -> OK(MkCpx(ISub(Re(a), Re(b)), ISub(Im(a), Im(b))), h)
           [] IR(a, b) -> OK(RSub(a, b), h)
           [] ka = "set" /\ kb = "set" -> NewSet(h, SelectSeq(Elems(h, a), LAMBDA e: ~Member(h, Elems(h, b), e)))
           [] vec -> VEC
           [] OTHER -> BAD
    [] op = "*" ->
         CASE IL(a, b) -> OK(IMul(x, y), h)
           [] IC(a, b) -> OK(CMul(a, b), h)
           [] IR(a, b) -> OK(RMul(a, b), h)
           [] ka = "str" /\ IsIntT(b) -> IF INegative(b) THEN NegErr(p, h, "*", a, b) ELSE IF Huge(Len(a[2]), b) THEN E("?") ELSE OK(S(RepStr(a[2], NatOf(b))), h)
           [] kb = "str" /\ IsIntT(a) -> IF INegative(a) THEN NegErr(p, h, "*", b, a) ELSE IF Huge(Len(b[2]), a) THEN E("?") ELSE OK(S(RepStr(b[2], NatOf(a))), h)
           [] ka = "list" /\ IsIntT(b) -> IF INegative(b) THEN NegErr(p, h, "*", a, b) ELSE IF Many(Len(Elems(h, a)), b) THEN E("?") ELSE NewList(h, RepSeq(Elems(h, a), NatOf(b)))
           [] kb = "list" /\ IsIntT(a) -> IF INegative(a) THEN NegErr(p, h, "*", b, a) ELSE IF Many(Len(Elems(h, b)), a) THEN E("?") ELSE NewList(h, RepSeq(Elems(h, b), NatOf(a)))
           [] vec -> VEC
           [] OTHER -> BAD
    [] op = "/" ->
         CASE IL(a, b) -> IF IZero(y) THEN E("ValueError: Division by zero") ELSE OK(IDivFloor(x, y), h)
           [] IC(a, b) -> IF IZero(Re(b)) /\ IZero(Im(b)) THEN E("ValueError: Division by zero") ELSE OK(CDiv(a, b), h)
           [] IR(a, b) -> IF BIsZero(Num(b)) THEN E("ValueError: Division by zero") ELSE OK(RDiv(a, b), h)
           [] vec -> VEC
           [] OTHER -> BAD
    [] op = "%" ->
         CASE IL(a, b) -> IF IZero(y) THEN E("ValueError: Modulo by zero") ELSE OK(IModFloor(x, y), h)
           [] ka = "cpx" /\ IsIntLike(b) -> IF IZero(y) THEN E("ValueError: Modulo by zero")
                                           ELSE OK(MkCpx(IModFloor(a[2], y), IModFloor(a[3], y)), h)
           [] ka = "str" -> Format(p, h, a[2], 1, IF kb \in {"list", "vec"} THEN Elems(h, b) ELSE <<b>>, "")
           [] vec -> VEC
           [] OTHER -> BAD
    [] op = "**" ->
         CASE IL(a, b) -> IF INegative(y) THEN E("ValueError: Power of an integral value by '" \o IStr(y) \o "' which is negative")
                          ELSE OK(IPow(x, y), h)
           [] ka = "cpx" /\ IsIntLike(b) -> IF INegative(y) THEN E("ValueError: Power of an integral value by '" \o IStr(y) \o "' which is negative")
                          ELSE OK(CPow(a, NatOf(y)), h)
           [] ka = "rat" /\ IsIntLike(b) ->
                 IF ~IsSmall(y) THEN E("ValueError: value would be too large!")
                 ELSE IF BIsZero(a[2]) /\ INegative(y) THEN E("ValueError: Division by zero")
                 ELSE OK(RPow(a, y[2]), h)
           [] ka = "list" /\ IsIntT(b) -> IF INegative(b) THEN NegErr(p, h, "**", a, b)
                                          ELSE IF Many(Len(Elems(h, a)), b) THEN E("?") ELSE LET r == RepCopy(h, Elems(h, a), NatOf(b)) IN NewList(r[2], r[1])
           [] kb = "list" /\ IsIntT(a) -> IF INegative(a) THEN NegErr(p, h, "**", b, a)
                                          ELSE IF Many(Len(Elems(h, b)), a) THEN E("?") ELSE LET r == RepCopy(h, Elems(h, b), NatOf(a)) IN NewList(r[2], r[1])
           [] vec -> VEC
           [] OTHER -> BAD
    [] op \in {"<<", ">>"} ->
         CASE IL(a, b) -> OK(IF op = "<<" THEN IShl(x, y) ELSE IShr(x, y), h)
           [] vec -> VEC
           [] OTHER -> BAD
    [] op \in {"&", "|", "^"} ->
         CASE ka = "bool" /\ kb = "bool" ->
                OK(B(CASE op = "&" -> a[2] /\ b[2] [] op = "|" -> a[2] \/ b[2] [] OTHER -> a[2] # b[2]), h)
           [] IL(a, b) -> OK(CASE op = "&" -> IAnd(x, y) [] op = "|" -> IOr(x, y) [] OTHER -> IXor(x, y), h)
           [] ka = "set" /\ kb = "set" ->
                LET s == Elems(h, a)  t == Elems(h, b) IN
                CASE op = "&" -> NewSet(h, SelectSeq(s, LAMBDA e: Member(h, t, e)))
                  [] op = "|" -> NewSet(h, s \o SelectSeq(t, LAMBDA e: ~Member(h, s, e)))
                  [] OTHER -> NewSet(h, SelectSeq(s, LAMBDA e: ~Member(h, t, e)) \o SelectSeq(t, LAMBDA e: ~Member(h, s, e)))
           [] vec -> VEC
           [] OTHER -> BAD
    [] op = "is" -> IsOp(p, h, a, b, FALSE)
    [] op = "is not" -> IsOp(p, h, a, b, TRUE)
    [] op = "in" -> InOp(p, h, a, b, FALSE)
    [] op = "not in" -> InOp(p, h, a, b, TRUE)
    [] op = "<" -> OK(B(Cmp(h, a, b) < 0), h)
    [] op = ">" -> OK(B(Cmp(h, a, b) > 0), h)
    [] op = "<=" -> OK(B(Cmp(h, a, b) <= 0), h)
    [] op = ">=" -> OK(B(Cmp(h, a, b) >= 0), h)
    [] op = "==" -> OK(B(Eq(h, a, b)), h)
    [] op = "!=" -> OK(B(~Eq(h, a, b)), h)
    [] op = "max" -> OK(IF Cmp(h, a, b) > 0 THEN a ELSE b, h)
    [] op = "min" -> OK(IF Cmp(h, a, b) > 0 THEN b ELSE a, h)
    [] OTHER -> E("?operator " \o op)

RECURSIVE UnOp(_,_,_,_), VecUn(_,_,_,_,_,_)
VecUn(p, h, op, s, i, acc) == IF i > Len(s) THEN NewVec(h, acc)
  ELSE LET r == UnOp(p, h, op, s[i]) IN IF r[1] = "err" THEN r ELSE VecUn(p, r[3], op, s, i + 1, Append(acc, r[2]))
UnErr(p, h, op, a) == E("TypeError: Operator unary '" \o op \o "' is not supported for type " \o TypeName(p, h, a))
UnOp(p, h, op, a) ==
  CASE op = "not" -> OK(B(~Truthy(h, a)), h)
    [] Kind(h, a) = "vec" -> VecUn(p, h, op, Elems(h, a), 1, <<>>)
    [] op = "-" /\ IsIntLike(a) -> OK(INeg(AsInt(a)), h)
    [] op = "-" /\ a[1] = "cpx" -> OK(MkCpx(INeg(a[2]), INeg(a[3])), h)
    [] op = "-" /\ a[1] = "rat" -> OK(<<"rat", BNeg(a[2]), a[3]>>, h)
    [] op = "!" /\ a[1] = "bool" -> OK(B(~a[2]), h)
    [] op = "!" /\ IsIntT(a) -> OK(INot(a), h)
    [] op = "!" /\ a[1] = "cpx" -> OK(MkCpx(a[2], INeg(a[3])), h)
    [] op = "abs" /\ IsIntLike(a) -> OK(IAbs(AsInt(a)), h)
    [] op = "abs" /\ a[1] = "cpx" -> OK(MkCpx(IAbs(a[2]), IAbs(a[3])), h)
    [] op = "abs" /\ a[1] = "rat" -> OK(<<"rat", BAbs(a[2]), a[3]>>, h)
    [] op = "abs" -> E("TypeError: Cannot convert " \o Quoted(p, h, a) \o " to an int")
    [] OTHER -> UnErr(p, h, op, a)

------------------------------------------------------------------------------
(* Iteration.  An iterator is <<"itc", cell, i>> (looks at the live        *)
(* collection), <<"its", seq, i>>, <<"itr", range, i>>, <<"ite", i, it>>.  *)
(* Next: <<TRUE, value, iterator, heap>> or <<FALSE>>                      *)
RECURSIVE MkIter(_,_,_), NextIt(_,_), DrainFrom(_,_,_)
MkIter(p, h, v) ==
  CASE v[1] = "str" -> <<"ok", <<"its", [i \in 1..Len(v[2]) |-> S(Ch(v[2], i))], 0>>>>
    [] Kind(h, v) \in {"list", "vec", "set", "dict"} -> <<"ok", <<"itc", v[2], 0>>>>
    [] Kind(h, v) = "heap" -> <<"ok", <<"its", Elems(h, v), 0>>>>
    [] v[1] = "range" -> <<"ok", <<"itr", v, I(0)>>>>
    [] v[1] = "enum" -> LET r == MkIter(p, h, v[2]) IN IF r[1] = "err" THEN r ELSE <<"ok", <<"ite", 0, r[2]>>>>
    [] OTHER -> ErrIter(p, h, v)
NextIt(h, it) ==
  CASE it[1] = "its" -> IF it[3] >= Len(it[2]) THEN <<FALSE>> ELSE <<TRUE, it[2][it[3] + 1], <<"its", it[2], it[3] + 1>>, h>>
    [] it[1] = "itc" -> LET c == h[it[2]]  i == it[3] + 1 IN
         IF i > Len(c[2]) THEN <<FALSE>>
         ELSE IF c[1] = "dict" THEN <<TRUE, Ref(Len(h) + 1), <<"itc", it[2], i>>, Append(h, <<"vec", <<c[2][i], c[3][i]>>>>)>>
         ELSE <<TRUE, c[2][i], <<"itc", it[2], i>>, h>>
    [] it[1] = "itr" -> IF ILe(RangeLen(it[2]), it[3]) THEN <<FALSE>>
                        ELSE <<TRUE, RangeAt(it[2], it[3]), <<"itr", it[2], IAdd(it[3], I(1))>>, h>>
    [] it[1] = "ite" -> LET r == NextIt(h, it[3]) IN IF ~r[1] THEN r
         ELSE <<TRUE, Ref(Len(r[4]) + 1), <<"ite", it[2] + 1, r[3]>>, Append(r[4], <<"vec", <<I(it[2]), r[2]>>>>)>>
    [] OTHER -> <<FALSE>>
DrainFrom(h, it, acc) == LET r == NextIt(h, it) IN IF ~r[1] THEN <<acc, h>> ELSE DrainFrom(r[4], r[3], Append(acc, r[2]))
(* all elements now: <<"ok", seq, heap>> or an error *)
ToSeq(p, h, v) ==
  IF Kind(h, v) \in {"list", "vec", "set", "heap"} THEN <<"ok", Elems(h, v), h>>
  ELSE LET r == MkIter(p, h, v) IN IF r[1] = "err" THEN r ELSE LET d == DrainFrom(h, r[2], <<>>) IN <<"ok", d[1], d[2]>>

LenOf(p, h, v) ==     \* <<"ok", int>> or error
  CASE v[1] = "str" -> <<"ok", I(Len(v[2]))>>
    [] Kind(h, v) \in {"list", "vec", "set", "dict", "heap"} -> <<"ok", I(Len(h[v[2]][2]))>>
    [] v[1] = "range" -> <<"ok", RangeLen(v)>>
    [] v[1] = "enum" -> (CASE v[2][1] = "str" -> <<"ok", I(Len(v[2][2]))>>
                           [] Kind(h, v[2]) \in {"list", "vec", "set", "dict", "heap"} -> <<"ok", I(Len(h[v[2][2]][2]))>>
                           [] v[2][1] = "range" -> <<"ok", RangeLen(v[2])>>
                           [] OTHER -> ErrIter(p, h, v[2]))
    [] OTHER -> ErrIter(p, h, v)

------------------------------------------------------------------------------
(* Indexing and slicing                                                    *)
ErrIndexable(p, h, v) == E("TypeError: Cannot index " \o Quoted(p, h, v))
Indexed(h, a) == IF a[1] = "str" THEN [i \in 1..Len(a[2]) |-> S(Ch(a[2], i))] ELSE Elems(h, a)
(* 1-based position of index i in a sequence of n, or 0 *)
Pos(i, n) == IF ~IsSmall(i) THEN 0 ELSE
             LET j == IF i[2] >= 0 THEN i[2] + 1 ELSE n + i[2] + 1 IN IF 1 <= j /\ j <= n THEN j ELSE 0
(* dictionaries are indexed by the machine, which may have to call the default *)
GetIndex(p, h, a, i) ==
  IF Kind(h, a) \notin {"str", "list", "vec"} THEN ErrIndexable(p, h, a)
  ELSE IF ~IsIntLike(i) THEN ErrInt(p, h, i)
  ELSE LET n == IF a[1] = "str" THEN Len(a[2]) ELSE Len(Elems(h, a))
           j == Pos(AsInt(i), n) IN
       IF j = 0 THEN OOB(AsInt(i), n)
       ELSE OK(IF a[1] = "str" THEN S(Ch(a[2], j)) ELSE Elems(h, a)[j], h)
DictPut(h, d, k, v) ==
  LET c == h[d[2]]  j == PosOf(h, c[2], k) IN
  IF j # 0 THEN [h EXCEPT ![d[2]][3][j] = v]
  ELSE [h EXCEPT ![d[2]] = <<"dict", Append(c[2], k), Append(c[3], v), c[4]>>]
RECURSIVE Reaches(_,_,_,_)
(* does hashing k look into cell a? *)
Reaches(h, k, a, seen) ==
  CASE k[1] = "enum" -> Reaches(h, k[2], a, seen)
    [] k[1] # "ref" -> FALSE
    [] k[2] = a -> TRUE
    [] k[2] \in seen -> FALSE
    [] h[k[2]][1] \in {"list", "vec", "set", "heap"} -> \E i \in DOMAIN h[k[2]][2] : Reaches(h, h[k[2]][2][i], a, seen \cup {k[2]})
    [] h[k[2]][1] = "dict" -> \E i \in DOMAIN h[k[2]][2] : Reaches(h, h[k[2]][2][i], a, seen \cup {k[2]}) \/ Reaches(h, h[k[2]][3][i], a, seen \cup {k[2]})
    [] h[k[2]][1] = "struct" -> \E i \in DOMAIN h[k[2]][3] : Reaches(h, h[k[2]][3][i], a, seen \cup {k[2]})
    [] OTHER -> FALSE
RecHash == E("ValueError: Cannot create recursive hash-based collection")
SetIndex(p, h, a, i, v) ==
  IF IsKind(h, a, "dict") THEN (IF Reaches(h, i, a[2], {}) THEN RecHash ELSE OK(v, DictPut(h, a, i, v)))
  ELSE IF Kind(h, a) \notin {"str", "list", "vec"} THEN ErrIndexable(p, h, a)
  ELSE IF ~IsIntLike(i) THEN ErrInt(p, h, i)
  ELSE LET n == IF a[1] = "str" THEN Len(a[2]) ELSE Len(Elems(h, a))
           j == Pos(AsInt(i), n) IN
       IF j = 0 THEN OOB(AsInt(i), n)
       ELSE IF a[1] = "str" THEN ErrIndexable(p, h, a)
       ELSE OK(v, [h EXCEPT ![a[2]][2][j] = v])

(* the positions (from 0) that [lo:hi:st] selects among n, as in Python *)
Clamp(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
ClampI(x) == IF x[1] = "int" THEN Clamp(x[2], -100000, 100000) ELSE IF INegative(x) THEN -100000 ELSE 100000
RECURSIVE Positions(_,_,_,_)
Positions(i, stop, step, acc) ==
  IF (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) THEN acc ELSE Positions(i + step, stop, step, Append(acc, i))
SlicePos(n, lo, hi, st) ==
  LET step == IF st = Nil THEN 1 ELSE ClampI(AsInt(st))
      norm(x) == LET c == ClampI(AsInt(x)) IN IF c < 0 THEN c + n ELSE c
      start == IF lo = Nil THEN (IF step > 0 THEN 0 ELSE n - 1)
               ELSE IF step > 0 THEN Clamp(norm(lo), 0, n) ELSE Clamp(norm(lo), -1, n - 1)
      stop == IF hi = Nil THEN (IF step > 0 THEN n ELSE -1)
              ELSE IF step > 0 THEN Clamp(norm(hi), 0, n) ELSE Clamp(norm(hi), -1, n - 1)
  IN Positions(start, stop, step, <<>>)
Slice(p, h, a, lo, hi, st) ==
  LET bad(x) == x # Nil /\ ~IsIntLike(x) IN
  IF bad(lo) THEN ErrInt(p, h, lo)
  ELSE IF bad(hi) THEN ErrInt(p, h, hi)
  ELSE IF bad(st) THEN ErrInt(p, h, st)
  ELSE IF Kind(h, a) \notin {"str", "list", "vec"} THEN E("TypeError: Cannot slice " \o Quoted(p, h, a))
  ELSE IF st # Nil /\ IZero(AsInt(st)) THEN E("ValueError: 'step' argument cannot be zero")
  ELSE LET n == IF a[1] = "str" THEN Len(a[2]) ELSE Len(Elems(h, a))
           ps == SlicePos(n, lo, hi, st) IN
       IF a[1] = "str" THEN OK(S(Join([i \in DOMAIN ps |-> Ch(a[2], ps[i] + 1)], "")), h)
       ELSE LET s == [i \in DOMAIN ps |-> Elems(h, a)[ps[i] + 1]] IN
            IF Kind(h, a) = "list" THEN NewList(h, s) ELSE NewVec(h, s)

------------------------------------------------------------------------------
(* String helpers                                                          *)
White == {" ", "\t", "\n", "\r"}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF Len(s) > 0 /\ Ch(s, 1) \in White THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
TrimR(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in White THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Between(n, a, b) == a <= n /\ n <= b
LowerCh(c) == LET n == OrdOf(c) IN
  IF Between(n, 65, 90) \/ (Between(n, 192, 222) /\ n # 215) THEN CHR[TLCStr(n + 32)] ELSE c
UpperCh(c) == LET n == OrdOf(c) IN
  IF Between(n, 97, 122) \/ (Between(n, 224, 254) /\ n # 247) THEN CHR[TLCStr(n - 32)]
  ELSE IF n = 223 THEN "SS" ELSE c
MapStr(s, F(_)) == Join([i \in 1..Len(s) |-> F(Ch(s, i))], "")
(* what patterns with operators of regular expressions match is not specified *)
UNSPECIFIED == "?"
Plain(t) == \A i \in 1 .. Len(t) : Ch(t, i) \notin {"\\", ".", "+", "*", "?", "(", ")", "|", "[", "]", "{", "}", "^", "$"}
RECURSIVE SplitFrom(_,_,_,_)
(* split s[from..] at each occurrence of t *)
SplitFrom(s, t, from, acc) == LET i == FindSub(s, t, from) IN
  IF i = 0 THEN Append(acc, S(SubSeq(s, from, Len(s))))
  ELSE SplitFrom(s, t, i + Len(t), Append(acc, S(SubSeq(s, from, i - 1))))
RECURSIVE ReplFrom(_,_,_,_)
ReplFrom(s, t, r, from) == LET i == IF t = "" THEN 0 ELSE FindSub(s, t, from) IN
  IF i = 0 THEN SubSeq(s, from, Len(s)) ELSE SubSeq(s, from, i - 1) \o r \o ReplFrom(s, t, r, i + Len(t))
RECURSIVE CountSub(_,_,_)
CountSub(s, t, from) == LET i == FindSub(s, t, from) IN IF i = 0 THEN 0 ELSE 1 + CountSub(s, t, i + Len(t))

IsDigits(s, ds) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in ds
SignLen(s) == IF Len(s) > 0 /\ Ch(s, 1) \in {"-", "+"} THEN 1 ELSE 0
HexDigits == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
LowHex == <<"a", "b", "c", "d", "e", "f">>
UpHex == <<"A", "B", "C", "D", "E", "F">>
HexVal(c) == IF c \in Digits THEN DigitVal(c)
             ELSE IF IndexOfSeq(LowHex, c) # 0 THEN 9 + IndexOfSeq(LowHex, c) ELSE 9 + IndexOfSeq(UpHex, c)
RECURSIVE ParseRadix(_,_,_,_)
ParseRadix(s, i, r, acc) == IF i > Len(s) THEN acc ELSE ParseRadix(s, i + 1, r, IAdd(IMul(acc, I(r)), I(HexVal(Ch(s, i)))))
StrToInt(s, r) == LET n == ParseRadix(SubSeq(s, SignLen(s) + 1, Len(s)), 1, r, I(0)) IN
                  IF Len(s) > 0 /\ Ch(s, 1) = "-" THEN INeg(n) ELSE n
(* a decimal magnitude fits 63 bits signed *)
RECURSIVE StripZ(_)
StripZ(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZ(SubSeq(s, 2, Len(s))) ELSE s
FitsDec(s, neg) == LET t == StripZ(s)  m == IF neg THEN "4611686018427387904" ELSE "4611686018427387903" IN
                   Len(t) < Len(m) \/ (Len(t) = Len(m) /\ CmpStr(t, m) <= 0)
IntParse(p, h, v, dflt) ==
  LET s == v[2]  n == SignLen(s)  d == SubSeq(s, n + 1, Len(s))
      bad(why) == IF dflt # <<>> THEN OK(dflt[1], h)
                  ELSE E("ValueError: Cannot convert " \o Quoted(p, h, v) \o " to an integer: " \o why)
  IN IF s = "" THEN bad("cannot parse integer from empty string")
     ELSE IF ~IsDigits(d, Digits) THEN bad("invalid digit found in string")
     ELSE IF ~FitsDec(d, Ch(s, 1) = "-") THEN
          bad(IF Ch(s, 1) = "-" THEN "number too small to fit in target type" ELSE "number too large to fit in target type")
     ELSE OK(StrToInt(s, 10), h)

------------------------------------------------------------------------------
(* Integer square root, permutations and combinations                      *)
RECURSIVE SqrtNewton(_,_), Combs(_,_), Perms(_,_)
SqrtNewton(n, x) == LET y == IDivFloor(IAdd(x, IDivFloor(n, x)), I(2)) IN IF ILe(x, y) THEN x ELSE SqrtNewton(n, y)
ISqrt(n) == IF IZero(n) THEN n ELSE IF IsSmall(n) /\ n[2] < 4 THEN I(1) ELSE SqrtNewton(n, IAdd(IDivFloor(n, I(2)), I(1)))
SeqOf(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
Combs(s, n) == IF n = 0 THEN <<<<>>>> ELSE IF Len(s) < n THEN <<>>
               ELSE SeqOf(Combs(Tail(s), n - 1), LAMBDA c: <<s[1]>> \o c) \o Combs(Tail(s), n)
RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Perms(s, n) == IF n = 0 THEN <<<<>>>> ELSE IF Len(s) < n THEN <<>>
               ELSE FlatSeq([i \in DOMAIN s |-> SeqOf(Perms(Without(s, i), n - 1), LAMBDA c: <<s[i]>> \o c)])
(* a list of new vectors *)
ListOfVecs(h, ss) ==
  LET h2 == h \o [i \in DOMAIN ss |-> <<"vec", ss[i]>>] IN NewList(h2, [i \in DOMAIN ss |-> Ref(Len(h) + i)])

RECURSIVE SumFrom(_,_,_,_,_), GcdFrom(_,_,_,_,_,_)
SumFrom(p, h, s, i, acc) == IF i > Len(s) THEN OK(acc, h)
  ELSE IF ~IsIntLike(s[i]) THEN ErrInt(p, h, s[i]) ELSE SumFrom(p, h, s, i + 1, IAdd(acc, AsInt(s[i])))
ILcm(a, b) == IF IZero(a) \/ IZero(b) THEN I(0) ELSE IAbs(IMul(a, IDivTrunc(b, IGcd(a, b))))
GcdFrom(p, h, s, i, acc, lcm) == IF i > Len(s) THEN OK(acc, h)
  ELSE IF ~IsIntLike(s[i]) THEN ErrInt(p, h, s[i])
  ELSE GcdFrom(p, h, s, i + 1, IF lcm THEN ILcm(acc, AsInt(s[i])) ELSE IGcd(acc, AsInt(s[i])), lcm)
RECURSIVE MaxIdx(_,_,_,_)
(* the last greatest element *)
MaxIdx(h, s, i, m) == IF i > Len(s) THEN m ELSE MaxIdx(h, s, i + 1, IF m = 0 \/ Cmp(h, s[i], s[m]) >= 0 THEN i ELSE m)

RECURSIVE PairsFrom(_,_,_,_,_,_)
(* key-value pairs, for dict(...): later pairs win, first position stays *)
PairsFrom(p, h, s, i, ks, vs) ==
  IF i > Len(s) THEN NewDict(h, ks, vs)
  ELSE LET e == s[i] IN
    IF ~(Kind(h, e) \in {"list", "vec"} /\ Len(Elems(h, e)) = 2)
    THEN E("ValueError: Cannot collect key-value pair " \o Quoted(p, h, e) \o " into a dict")
    ELSE LET kv == Elems(h, e)  j == PosOf(h, ks, kv[1]) IN
      IF j # 0 THEN PairsFrom(p, h, s, i + 1, ks, [vs EXCEPT ![j] = kv[2]])
      ELSE PairsFrom(p, h, s, i + 1, Append(ks, kv[1]), Append(vs, kv[2]))

RECURSIVE CountFrom(_,_,_,_,_)
CountFrom(h, s, i, ks, vs) == IF i > Len(s) THEN NewDict(h, ks, vs)
  ELSE LET j == PosOf(h, ks, s[i]) IN
    IF j # 0 THEN CountFrom(h, s, i + 1, ks, [vs EXCEPT ![j] = IAdd(vs[j], I(1))])
    ELSE CountFrom(h, s, i + 1, Append(ks, s[i]), Append(vs, I(1)))

RECURSIVE ZipSeqs(_,_,_,_,_), FlatAll(_,_,_,_,_)
ZipSeqs(p, h, args, i, acc) ==    \* collect the element sequences
  IF i > Len(args) THEN
    LET n == CHOOSE m \in {Len(acc[j]) : j \in DOMAIN acc} : \A j \in DOMAIN acc : m <= Len(acc[j])
    IN ListOfVecs(h, [r \in 1..n |-> [j \in DOMAIN acc |-> acc[j][r]]])
  ELSE LET r == ToSeq(p, h, args[i]) IN IF r[1] = "err" THEN r ELSE ZipSeqs(p, r[3], args, i + 1, Append(acc, r[2]))
FlatAll(p, h, s, i, acc) ==
  IF i > Len(s) THEN NewList(h, acc)
  ELSE LET r == ToSeq(p, h, s[i]) IN IF r[1] = "err" THEN r ELSE FlatAll(p, r[3], s, i + 1, acc \o r[2])

RECURSIVE Chunks(_,_)
Chunks(s, n) == IF s = <<>> THEN <<>> ELSE IF Len(s) <= n THEN <<s>> ELSE <<SubSeq(s, 1, n)>> \o Chunks(SubSeq(s, n + 1, Len(s)), n)

TypeOfNat == [bool |-> "bool", int |-> "int", big |-> "int", cpx |-> "complex", rat |-> "rational", str |-> "str",
              list |-> "list", set |-> "set", dict |-> "dict", heap |-> "heap", vec |-> "vector",
              range |-> "range", enum |-> "enumerate"]

------------------------------------------------------------------------------
(* How many arguments a native function takes                              *)
Arity ==
  [read |-> "0", read_line |-> "0", argv |-> "0", env |-> "0-1",
   int |-> "1-2", rational |-> "1-2", range |-> "1-3",
   write_text |-> "2", search |-> "2", split |-> "2", join |-> "2", min_by |-> "2", max_by |-> "2", map |-> "2",
   filter |-> "2", flat_map |-> "2", reduce |-> "2", sort_by |-> "2", group_by |-> "2", permutations |-> "2",
   combinations |-> "2", any |-> "2", all |-> "2", union |-> "2", intersect |-> "2", difference |-> "2",
   push |-> "2", push_front |-> "2", remove |-> "2", find |-> "2", rfind |-> "2", index_of |-> "2",
   rindex_of |-> "2", default |-> "2", replace |-> "3", insert |-> "3",
   print |-> "u", vector |-> "u", min |-> "un", max |-> "un",
   list |-> "i", set |-> "i", dict |-> "i", heap |-> "i",
   sum |-> "in", zip |-> "in", sort |-> "in", reverse |-> "in", gcd |-> "in", lcm |-> "in",
   complex |-> "x", function |-> "x", iterable |-> "x"]
ArityOf(f) == IF f = "(-)" THEN "1-2" ELSE IF f \in {"(!)", "(not)"} THEN "1" ELSE IF IsOpName(f) THEN "2"
              ELSE IF f \in DOMAIN Arity THEN Arity[f] ELSE "1"
ErrArgs(f, n) == "Incorrect number of arguments for " \o NatRepr(f) \o ", got " \o TLCStr(n)
MinArgs(a) == CASE a \in {"1", "1-2", "1-3"} -> 1 [] a = "2" -> 2 [] a = "3" -> 3 [] OTHER -> 0
MaxArgs(a) == CASE a = "0" -> 0 [] a \in {"0-1", "1"} -> 1 [] a \in {"1-2", "2"} -> 2 [] OTHER -> 3

OpOfNat(f) == LET g == ShownName(f) IN SubSeq(g, 2, Len(g) - 1)
NumErr(p, h, v, what) == E("TypeError: Expected " \o Quoted(p, h, v) \o " to be a " \o what)
IntErr(p, h, v) == E("TypeError: Cannot convert " \o Quoted(p, h, v) \o " to an int")
RatErr(p, h, v) == E("TypeError: Cannot convert " \o Quoted(p, h, v) \o " to an rational")

(* a rational from text: [sign]digits[/digits], where blanks, and underscores
   after a digit, are ignored.  st: <<sign seen, negative, digits seen in
   this part, numerator, denominator or "none">>; an error is its reason   *)
RECURSIVE RatScan(_,_,_)
RatScan(s, i, st) ==
  IF i > Len(s) THEN IF st[3] THEN st ELSE <<IF st[5] = "none" THEN "string has no digits" ELSE "string has no digits for denominator">>
  ELSE LET c == Ch(s, i)  num == st[5] = "none" IN
    CASE c = "/" -> IF ~num THEN <<"more than one / found in string">>
                    ELSE IF ~st[3] THEN <<"string has no digits for numerator">>
                    ELSE RatScan(s, i + 1, <<st[1], st[2], FALSE, st[4], "">>)
      [] c \in {"+", "-"} /\ num /\ ~st[1] /\ ~st[3] -> RatScan(s, i + 1, <<TRUE, c = "-", FALSE, st[4], st[5]>>)
      [] (c = "_" /\ st[3]) \/ c \in {" ", "\t", "\n", "\r"} -> RatScan(s, i + 1, st)
      [] c \in Digits -> RatScan(s, i + 1, <<st[1], st[2], TRUE, IF num THEN st[4] \o c ELSE st[4], IF num THEN st[5] ELSE st[5] \o c>>)
      [] OTHER -> <<"invalid digit found in string">>
RatParse(p, h, v) ==
  LET r == RatScan(v[2], 1, <<FALSE, FALSE, FALSE, "", "none">>)
      den == BParse(FALSE, IF r[5] = "none" THEN "1" ELSE r[5])
      bad(why) == E("ValueError: Cannot convert " \o Quoted(p, h, v) \o " to an rational: " \o why)
  IN IF Len(r) = 1 THEN bad(r[1])
     ELSE IF BIsZero(den) THEN bad("string has zero denominator")
     ELSE OK(MkRat(BParse(r[2], r[4]), den), h)
(* f applied to the full argument list a; f calls nothing back *)
Lib(p, h, f, a) ==
  LET x == a[1]  y == a[2]  z == a[3]  n == Len(a)
      k == Kind(h, x)
      (* for functions over an iterable or an argument list *)
      IterArgs == IF n = 1 THEN ToSeq(p, h, x) ELSE <<"ok", a, h>>
      WithSeq(F(_,_)) == LET r == IterArgs IN IF r[1] = "err" THEN r ELSE F(r[2], r[3])
      OnStr(v, F(_)) == IF v[1] # "str" THEN ErrStr(p, h, v) ELSE F(v[2])
  IN
  CASE IsOpName(f) ->
         IF n = 1 THEN UnOp(p, h, OpOfNat(f), x)
         ELSE IF Ch(f, Len(f)) = "~" THEN BinOp(p, h, OpOfNat(f), y, x) ELSE BinOp(p, h, OpOfNat(f), x, y)
    (* conversions *)
    [] f = "bool" -> OK(B(Truthy(h, x)), h)
    [] f = "int" ->
         CASE x = Nil -> OK(I(0), h)
           [] IsIntLike(x) -> OK(AsInt(x), h)
           [] x[1] = "str" -> IntParse(p, h, x, IF n = 2 THEN <<y>> ELSE <<>>)
           [] x[1] = "rat" -> IF x[3] = BOne THEN (IF BFits(x[2]) THEN OK(BToI(x[2]), h)
                     ELSE E("ValueError: Cannot convert rational '" \o Quoted(p, h, x) \o "' to an integer as it is too large for the target type"))
                ELSE E("ValueError: Cannot convert rational '" \o Quoted(p, h, x) \o "' to an integer as it is not an integral value.")
           [] OTHER -> IntErr(p, h, x)
    [] f = "rational" ->
         IF IsIntLike(x) \/ x[1] = "rat" THEN
            IF n = 1 THEN OK(RatOf(x), h)
            ELSE IF ~(IsIntLike(y) \/ y[1] = "rat") THEN RatErr(p, h, y)
            ELSE IF BIsZero(Num(y)) THEN E("ValueError: Division by zero")
            ELSE OK(RDiv(x, y), h)
         ELSE IF x[1] = "str" THEN RatParse(p, h, x)
         ELSE RatErr(p, h, x)
    [] f = "str" -> OK(S(StrOf(p, h, x)), h)
    [] f = "repr" -> OK(S(Repr(p, h, {}, x)), h)
    [] f = "typeof" ->
         CASE x = Nil -> OK(Nil, h)
           [] k = "struct" -> OK(<<"stype", h[x[2]][2]>>, h)
           [] k \in DOMAIN TypeOfNat -> OK(<<"nat", TypeOfNat[k]>>, h)
           [] OTHER -> OK(<<"nat", "function">>, h)
    [] f = "list" -> IF n = 0 THEN NewList(h, <<>>) ELSE WithSeq(LAMBDA s, h2: NewList(h2, s))
    [] f = "vector" -> IF n = 0 THEN NewVec(h, <<>>)
         ELSE IF n = 1 /\ (IsIntLike(x) \/ x[1] = "cpx") THEN NewVec(h, <<Re(x), Im(x)>>)
         ELSE WithSeq(LAMBDA s, h2: NewVec(h2, s))
    [] f = "set" -> IF n = 0 THEN NewSet(h, <<>>) ELSE WithSeq(LAMBDA s, h2: NewSet(h2, Uniq(h2, s)))
    [] f = "heap" -> IF n = 0 THEN OK(Ref(Len(h) + 1), Append(h, <<"heap", <<>>>>))
         ELSE WithSeq(LAMBDA s, h2: OK(Ref(Len(h2) + 1), Append(h2, <<"heap", s>>)))
    [] f = "dict" -> IF n = 0 THEN NewDict(h, <<>>, <<>>) ELSE WithSeq(LAMBDA s, h2: PairsFrom(p, h2, s, 1, <<>>, <<>>))
    (* strings *)
    [] f = "to_lower" -> OnStr(x, LAMBDA s: OK(S(MapStr(s, LowerCh)), h))
    [] f = "to_upper" -> OnStr(x, LAMBDA s: OK(S(MapStr(s, UpperCh)), h))
    [] f = "trim" -> OnStr(x, LAMBDA s: OK(S(TrimL(TrimR(s))), h))
    [] f = "split" -> IF x[1] # "str" THEN ErrStr(p, h, x)
         ELSE OnStr(y, LAMBDA s: IF ~Plain(x[2]) THEN <<"err", UNSPECIFIED>> ELSE IF x[2] = "" THEN NewList(h, [i \in 1..Len(s) |-> S(Ch(s, i))])
                                 ELSE NewList(h, SplitFrom(s, x[2], 1, <<>>)))
    [] f = "join" -> LET r == ToSeq(p, h, y) IN
         IF r[1] = "err" THEN r ELSE IF x[1] # "str" THEN ErrStr(p, h, x)
         ELSE OK(S(Join([i \in DOMAIN r[2] |-> StrOf(p, r[3], r[2][i])], x[2])), r[3])
    [] f = "replace" -> IF x[1] # "str" THEN ErrStr(p, h, x) ELSE IF z[1] # "str" THEN ErrStr(p, h, z)
         ELSE OnStr(y, LAMBDA s: IF ~Plain(x[2]) THEN <<"err", UNSPECIFIED>> ELSE OK(S(ReplFrom(z[2], x[2], s, 1)), h))
    [] f = "search" -> IF x[1] # "str" THEN ErrStr(p, h, x)
         ELSE OnStr(y, LAMBDA s: IF ~Plain(x[2]) THEN <<"err", UNSPECIFIED>> ELSE NewList(h, IF x[2] = "" THEN <<>> ELSE [i \in 1..CountSub(s, x[2], 1) |-> x]))
    [] f = "char" -> IF ~IsIntLike(x) THEN ErrInt(p, h, x)
         ELSE LET i == AsInt(x) IN
              IF ~IsSmall(i) \/ i[2] <= 0 \/ i[2] > 1114111 \/ (55296 <= i[2] /\ i[2] <= 57343)
              THEN E("ValueError: Cannot convert int " \o IStr(i) \o " to a character")
              ELSE OK(S(CHR[TLCStr(i[2])]), h)
    [] f = "ord" -> OnStr(x, LAMBDA s: IF Len(s) = 1 THEN OK(I(OrdOf(s)), h)
                                       ELSE E("TypeError: Expected " \o Quoted(p, h, x) \o " to be a single character string"))
    [] f \in {"hex", "bin"} ->
         CASE IsIntT(x) -> OK(S(IF f = "hex" THEN IHex(x) ELSE IBin(x)), h)
           [] x[1] = "str" ->
               LET d == SubSeq(x[2], SignLen(x[2]) + 1, Len(x[2])) IN
               IF IsDigits(d, IF f = "hex" THEN HexDigits ELSE {"0", "1"}) /\ Len(StripZ(d)) <= (IF f = "hex" THEN 16 ELSE 63) THEN OK(StrToInt(x[2], IF f = "hex" THEN 16 ELSE 2), h)
               ELSE IntErr(p, h, x)
           [] OTHER -> E("TypeError: Expected " \o Quoted(p, h, x) \o " to be a int or string")
    (* sizes, ranges, reductions *)
    [] f = "len" -> LET r == LenOf(p, h, x) IN IF r[1] = "err" THEN r ELSE OK(r[2], h)
    [] f = "range" ->
         IF ~IsIntLike(x) THEN ErrInt(p, h, x) ELSE IF n >= 2 /\ ~IsIntLike(y) THEN ErrInt(p, h, y)
         ELSE IF n = 3 /\ ~IsIntLike(z) THEN ErrInt(p, h, z)
         ELSE LET r == MkRange(IF n = 1 THEN I(0) ELSE AsInt(x), IF n = 1 THEN AsInt(x) ELSE AsInt(y), IF n = 3 THEN AsInt(z) ELSE I(1))
              IN IF r[1] = "err" THEN r ELSE OK(r[2], h)
    [] f = "enumerate" -> OK(<<"enum", x>>, h)
    [] f = "sum" -> WithSeq(LAMBDA s, h2: SumFrom(p, h2, s, 1, I(0)))
    [] f = "min" -> IF n = 1 /\ x = <<"nat", "int">> THEN OK(MINI, h)
         ELSE WithSeq(LAMBDA s, h2: IF s = <<>> THEN ErrEmpty("min") ELSE OK(s[MinIdx(h2, s, 1, 0)], h2))
    [] f = "max" -> IF n = 1 /\ x = <<"nat", "int">> THEN OK(MAXI, h)
         ELSE WithSeq(LAMBDA s, h2: IF s = <<>> THEN ErrEmpty("max") ELSE OK(s[MaxIdx(h2, s, 1, 0)], h2))
    [] f \in {"gcd", "lcm"} -> WithSeq(LAMBDA s, h2: IF s = <<>> THEN ErrEmpty(f)
         ELSE IF ~IsIntLike(s[1]) THEN ErrInt(p, h2, s[1]) ELSE GcdFrom(p, h2, s, 2, AsInt(s[1]), f = "lcm"))
    [] f = "concat" -> LET r == ToSeq(p, h, x) IN IF r[1] = "err" THEN r ELSE FlatAll(p, r[3], r[2], 1, <<>>)
    [] f = "zip" -> WithSeq(LAMBDA s, h2: IF s = <<>> THEN ErrEmpty("zip") ELSE ZipSeqs(p, h2, s, 1, <<>>))
    [] f = "sort" -> WithSeq(LAMBDA s, h2: NewList(h2, SortSeqV(h2, s)))
    [] f = "reverse" -> WithSeq(LAMBDA s, h2: NewList(h2, [i \in DOMAIN s |-> s[Len(s) + 1 - i]]))
    [] f = "group_by" ->      \* the form with a size
         LET r == ToSeq(p, h, y) IN IF r[1] = "err" THEN r
         ELSE IF INegative(AsInt(x)) \/ IZero(AsInt(x)) THEN E("ValueError: Expected value '" \o IStr(AsInt(x)) \o ": int' to be positive")
         ELSE ListOfVecs(r[3], Chunks(r[2], NatOf(AsInt(x))))
    [] f \in {"permutations", "combinations"} ->
         IF ~IsIntLike(x) THEN ErrInt(p, h, x)
         ELSE IF INegative(AsInt(x)) THEN E("ValueError: Expected " \o f \o " arg to be a non-negative integer")
         ELSE LET r == ToSeq(p, h, y) IN IF r[1] = "err" THEN r
              ELSE ListOfVecs(r[3], IF f = "permutations" THEN Perms(r[2], NatOf(AsInt(x))) ELSE Combs(r[2], NatOf(AsInt(x))))
    [] f = "counter" -> LET r == ToSeq(p, h, x) IN IF r[1] = "err" THEN r ELSE CountFrom(r[3], r[2], 1, <<>>, <<>>)
    [] f = "copy" -> LET r == CopyV(h, EMPTYMAP, x) IN OK(r[1], r[2])
    [] f = "memoize" -> IF IsEvaluable(h, x) THEN OK(Ref(Len(h) + 1), Append(h, <<"memo", x, <<>>, <<>>>>)) ELSE ErrFunc(p, h, x)
    [] f \in {"find", "index_of", "rfind", "rindex_of"} ->     \* the forms with a value
         LET r == ToSeq(p, h, y) IN IF r[1] = "err" THEN r ELSE
         LET hits == {i \in DOMAIN r[2] : Eq(r[3], r[2][i], x)}
             lst == f \in {"rfind", "rindex_of"}
             i == IF hits = {} THEN 0 ELSE IF lst THEN CHOOSE m \in hits : \A j \in hits : j <= m ELSE CHOOSE m \in hits : \A j \in hits : m <= j
         IN IF f \in {"index_of", "rindex_of"} THEN OK(I(i - 1), r[3]) ELSE OK(IF i = 0 THEN Nil ELSE r[2][i], r[3])
    (* collections *)
    [] f = "peek" ->
         IF k \notin {"list", "set", "dict", "heap", "vec"} THEN ErrIter(p, h, x)
         ELSE IF h[x[2]][2] = <<>> THEN ErrEmpty("peek")
         ELSE CASE k = "dict" -> NewVec(h, <<h[x[2]][2][1], h[x[2]][3][1]>>)
                [] k = "heap" -> OK(Elems(h, x)[MinIdx(h, Elems(h, x), 1, 0)], h)
                [] OTHER -> OK(Elems(h, x)[1], h)
    [] f = "pop" ->
         IF k \notin {"list", "set", "dict", "heap"} THEN ErrIter(p, h, x)
         ELSE IF h[x[2]][2] = <<>> THEN ErrEmpty("pop")
         ELSE LET s == h[x[2]][2]  m == Len(s) IN
              CASE k = "dict" -> NewVec([h EXCEPT ![x[2]][2] = SubSeq(s, 1, m - 1), ![x[2]][3] = SubSeq(h[x[2]][3], 1, m - 1)],
                                        <<s[m], h[x[2]][3][m]>>)
                [] k = "heap" -> LET i == MinIdx(h, s, 1, 0) IN OK(s[i], SetElems(h, x, Without(s, i)))
                [] OTHER -> OK(s[m], SetElems(h, x, SubSeq(s, 1, m - 1)))
    [] f = "pop_front" -> IF k # "list" THEN ErrList(p, h, x) ELSE IF Elems(h, x) = <<>> THEN ErrEmpty("pop_front")
         ELSE OK(Elems(h, x)[1], SetElems(h, x, Tail(Elems(h, x))))
    [] f = "push" ->
         LET c == Kind(h, y) IN
         CASE c \in {"list", "heap"} -> OK(y, SetElems(h, y, Append(Elems(h, y), x)))
           [] c = "set" -> IF Reaches(h, x, y[2], {}) THEN RecHash
                           ELSE OK(y, IF Member(h, Elems(h, y), x) THEN h ELSE SetElems(h, y, Append(Elems(h, y), x)))
           [] OTHER -> ErrIter(p, h, y)
    [] f = "push_front" -> IF Kind(h, y) # "list" THEN ErrList(p, h, y) ELSE OK(y, SetElems(h, y, <<x>> \o Elems(h, y)))
    [] f = "insert" ->
         CASE Kind(h, z) = "list" ->
                IF ~IsIntLike(x) THEN ErrInt(p, h, x)
                ELSE LET s == Elems(h, z)  i == AsInt(x) IN
                     IF ~IsSmall(i) \/ i[2] < 0 \/ i[2] > Len(s) THEN OOB(i, Len(s))
                     ELSE OK(z, SetElems(h, z, SubSeq(s, 1, i[2]) \o <<y>> \o SubSeq(s, i[2] + 1, Len(s))))
           [] Kind(h, z) = "dict" -> IF Reaches(h, x, z[2], {}) THEN RecHash ELSE OK(z, DictPut(h, z, x, y))
           [] OTHER -> ErrIndexable(p, h, z)
    [] f = "remove" ->
         CASE Kind(h, y) = "list" ->
                IF ~IsIntLike(x) THEN ErrInt(p, h, x)
                ELSE LET s == Elems(h, y)  i == AsInt(x) IN
                     IF ~IsSmall(i) \/ i[2] < 0 \/ i[2] >= Len(s) THEN OOB(i, Len(s))
                     ELSE OK(s[i[2] + 1], SetElems(h, y, Without(s, i[2] + 1)))
           [] Kind(h, y) = "set" -> LET j == PosOf(h, Elems(h, y), x) IN
                IF j = 0 THEN OK(FALSEV, h) ELSE OK(TRUEV, SetElems(h, y, Without(Elems(h, y), j)))
           [] Kind(h, y) = "dict" -> LET c == h[y[2]]  j == PosOf(h, c[2], x) IN
                IF j = 0 THEN OK(FALSEV, h) ELSE OK(TRUEV, [h EXCEPT ![y[2]] = <<"dict", Without(c[2], j), Without(c[3], j), c[4]>>])
           [] OTHER -> ErrIter(p, h, y)
    [] f = "clear" ->
         CASE k \in {"list", "set", "heap"} -> OK(x, SetElems(h, x, <<>>))
           [] k = "dict" -> OK(x, [h EXCEPT ![x[2]][2] = <<>>, ![x[2]][3] = <<>>])
           [] OTHER -> ErrIter(p, h, x)
    [] f = "keys" -> IF k # "dict" THEN ErrDict(p, h, x) ELSE NewSet(h, h[x[2]][2])
    [] f = "values" -> IF k # "dict" THEN ErrDict(p, h, x) ELSE NewList(h, h[x[2]][3])
    [] f \in {"union", "intersect", "difference"} ->
         IF Kind(h, y) # "set" THEN ErrSet(p, h, y)
         ELSE LET r == ToSeq(p, h, x) IN IF r[1] = "err" THEN r ELSE
              LET s == Elems(h, y)  o == r[2]  h2 == r[3] IN
              OK(y, SetElems(h2, y, CASE f = "union" -> Uniq(h2, s \o o)
                                     [] f = "intersect" -> SelectSeq(s, LAMBDA e: Member(h2, o, e))
                                     [] OTHER -> SelectSeq(s, LAMBDA e: ~Member(h2, o, e))))
    (* numbers *)
    [] f = "abs" -> UnOp(p, h, "abs", x)
    [] f = "sqrt" ->
         CASE x[1] = "bool" -> OK(AsInt(x), h)
           [] IsIntT(x) -> IF INegative(x) THEN E("ValueError: Expected " \o Quoted(p, h, x) \o " to be non-negative") ELSE OK(ISqrt(x), h)
           [] x[1] = "rat" -> IF x[2][1] THEN E("ValueError: Expected " \o Quoted(p, h, x) \o " to be non-negative")
                              ELSE OK(MkRat(BMk(FALSE, NSqrt(x[2][2])), BMk(FALSE, NSqrt(x[3][2]))), h)
           [] OTHER -> NumErr(p, h, x, "rational")
    [] f = "count_ones" -> IF ~IsIntLike(x) THEN ErrInt(p, h, x) ELSE OK(I(ICountOnes(AsInt(x))), h)
    [] f = "count_zeros" -> IF ~IsIntLike(x) THEN ErrInt(p, h, x) ELSE OK(I(63 - ICountOnes(AsInt(x))), h)
    [] f = "real" -> IF IsIntLike(x) \/ x[1] = "cpx" THEN OK(Re(x), h) ELSE NumErr(p, h, x, "complex")
    [] f = "imag" -> IF IsIntLike(x) \/ x[1] = "cpx" THEN OK(Im(x), h) ELSE NumErr(p, h, x, "complex")
    [] f = "numer" -> IF IsIntLike(x) \/ x[1] = "rat" THEN OK(<<"rat", Num(x), BOne>>, h) ELSE NumErr(p, h, x, "rational")
    [] f = "denom" -> IF IsIntLike(x) \/ x[1] = "rat" THEN OK(<<"rat", Den(x), BOne>>, h) ELSE NumErr(p, h, x, "rational")
    [] OTHER -> E("?library " \o f)
=============================================================================
