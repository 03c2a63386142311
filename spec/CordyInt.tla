------------------------------ MODULE CordyInt ------------------------------
(***************************************************************************)
(* Cordy's `int`: 63-bit two's complement integers.                        *)
(*                                                                         *)
(* A value is <<"int", n>> when |n| < 2^30 (a native TLC integer) and      *)
(* <<"big", L>> otherwise, where L is the two's complement representation  *)
(* in 7 limbs of 9 bits (7*9 = 63), least significant first.  The          *)
(* representation is canonical, so `=` is integer equality.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

SMALL == 1073741824        \* 2^30
LB == 512                  \* limb base 2^9
NL == 7

I(n) == <<"int", n>>

P9 == <<1, 512, 262144, 134217728>>      \* 512^0 .. 512^3

(* limbs of a small integer; \div floors and % is non-negative in TLC *)
Limbs(v) ==
  IF v[1] = "big" THEN v[2]
  ELSE LET n == v[2] IN
       << n % LB, (n \div 512) % LB, (n \div 262144) % LB, (n \div 134217728) % LB,
          IF n < 0 THEN 511 ELSE 0, IF n < 0 THEN 511 ELSE 0, IF n < 0 THEN 511 ELSE 0 >>

LNeg(l) == l[7] >= 256

(* canonicalise limbs *)
Norm(l) ==
  IF l[5] = 0 /\ l[6] = 0 /\ l[7] = 0 /\ l[4] < 8
  THEN <<"int", l[1] + 512 * l[2] + 262144 * l[3] + 134217728 * l[4]>>
  ELSE IF /\ l[5] = 511 /\ l[6] = 511 /\ l[7] = 511 /\ l[4] >= 504
          /\ ~(l[1] = 0 /\ l[2] = 0 /\ l[3] = 0 /\ l[4] = 504)
  THEN <<"int", l[1] + 512 * l[2] + 262144 * l[3] + 134217728 * (l[4] - 512)>>
  ELSE <<"big", l>>

(* turns a sequence of limb sums into proper limbs, dropping the carry out *)
Carry(s) ==
  LET t2 == s[2] + (s[1] \div LB)
      t3 == s[3] + (t2 \div LB)
      t4 == s[4] + (t3 \div LB)
      t5 == s[5] + (t4 \div LB)
      t6 == s[6] + (t5 \div LB)
      t7 == s[7] + (t6 \div LB)
  IN << s[1] % LB, t2 % LB, t3 % LB, t4 % LB, t5 % LB, t6 % LB, t7 % LB >>
LAdd(x, y) == Carry(<< x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4], x[5] + y[5], x[6] + y[6], x[7] + y[7] >>)
LSub(x, y) == Carry(<< x[1] - y[1], x[2] - y[2], x[3] - y[3], x[4] - y[4], x[5] - y[5], x[6] - y[6], x[7] - y[7] >>)

FromTLC(n) == IF n < SMALL /\ n > -SMALL THEN <<"int", n>>
              ELSE Norm(<< n % LB, (n \div 512) % LB, (n \div 262144) % LB, (n \div 134217728) % LB,
                          IF n < 0 THEN 511 ELSE 0, IF n < 0 THEN 511 ELSE 0, IF n < 0 THEN 511 ELSE 0 >>)

IAdd(a, b) ==
  IF a[1] = "int" /\ b[1] = "int" THEN FromTLC(a[2] + b[2])
  ELSE LET x == Limbs(a)  y == Limbs(b) IN Norm(LAdd(x, y))

INot(a) == IF a[1] = "int" THEN FromTLC(-1 - a[2])
           ELSE LET x == a[2] IN Norm([i \in 1..NL |-> 511 - x[i]])

INeg(a) == IF a[1] = "int" THEN <<"int", -a[2]>> ELSE IAdd(INot(a), <<"int", 1>>)

ISub(a, b) == IF a[1] = "int" /\ b[1] = "int" THEN FromTLC(a[2] - b[2])
              ELSE LET x == Limbs(a)  y == Limbs(b)
                   IN Norm(LSub(x, y))

LMul(x, y) == Carry(<< x[1] * y[1],
                       x[1] * y[2] + x[2] * y[1],
                       x[1] * y[3] + x[2] * y[2] + x[3] * y[1],
                       x[1] * y[4] + x[2] * y[3] + x[3] * y[2] + x[4] * y[1],
                       x[1] * y[5] + x[2] * y[4] + x[3] * y[3] + x[4] * y[2] + x[5] * y[1],
                       x[1] * y[6] + x[2] * y[5] + x[3] * y[4] + x[4] * y[3] + x[5] * y[2] + x[6] * y[1],
                       x[1] * y[7] + x[2] * y[6] + x[3] * y[5] + x[4] * y[4] + x[5] * y[3] + x[6] * y[2] + x[7] * y[1] >>)

Mid(n) == n < 32768 /\ n > -32768
IMul(a, b) ==
  IF a[1] = "int" /\ b[1] = "int" /\ Mid(a[2]) /\ Mid(b[2]) THEN FromTLC(a[2] * b[2])
  ELSE Norm(LMul(Limbs(a), Limbs(b)))

INegative(a) == IF a[1] = "int" THEN a[2] < 0 ELSE LNeg(a[2])
IZero(a) == a = <<"int", 0>>
ISign(a) == IF IZero(a) THEN 0 ELSE IF INegative(a) THEN -1 ELSE 1

ULess(x, y) ==
  IF x[7] # y[7] THEN x[7] < y[7] ELSE IF x[6] # y[6] THEN x[6] < y[6] ELSE IF x[5] # y[5] THEN x[5] < y[5]
  ELSE IF x[4] # y[4] THEN x[4] < y[4] ELSE IF x[3] # y[3] THEN x[3] < y[3] ELSE IF x[2] # y[2] THEN x[2] < y[2]
  ELSE x[1] < y[1]
(* -1, 0, 1 *)
ICmp(a, b) ==
  IF a = b THEN 0
  ELSE IF a[1] = "int" /\ b[1] = "int" THEN (IF a[2] < b[2] THEN -1 ELSE 1)
  ELSE IF INegative(a) # INegative(b) THEN (IF INegative(a) THEN -1 ELSE 1)
  ELSE IF ULess(Limbs(a), Limbs(b)) THEN -1 ELSE 1
ILt(a, b) == ICmp(a, b) < 0
ILe(a, b) == ICmp(a, b) <= 0

(* ----- unsigned 63-bit magnitudes as limbs, for division ----- *)
UGe(x, y) == ~ULess(x, y)
ZeroL == <<0, 0, 0, 0, 0, 0, 0>>
UNegL(x) == LSub(ZeroL, x)
MagL(a) == LET l == Limbs(a) IN IF LNeg(l) THEN UNegL(l) ELSE l    \* |a| as an unsigned 63-bit number
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
BitOf(x, b) == (x[(b \div 9) + 1] \div Pow2[(b % 9) + 1]) % 2     \* b in 0..62
TopLimb(y) == IF y[7] # 0 THEN 7 ELSE IF y[6] # 0 THEN 6 ELSE IF y[5] # 0 THEN 5 ELSE IF y[4] # 0 THEN 4
              ELSE IF y[3] # 0 THEN 3 ELSE IF y[2] # 0 THEN 2 ELSE 1
(* Long division, one limb of the quotient at a time.  The remainder r has
   an eighth limb while a digit is being found.                            *)
LScale(y, d) == << d * y[1], d * y[2], d * y[3], d * y[4], d * y[5], d * y[6], d * y[7] >>
Lim(r, i) == IF i < 1 THEN 0 ELSE r[i]
RECURSIVE UDigit(_,_,_,_), ULongDiv(_,_,_,_,_)
(* takes d * y off r (8 limbs), then corrects d upwards; r2 < 2^63 from then on *)
UDigit(y, d, r, first) ==
  LET z == LScale(y, d)
      r2 == IF first THEN Carry(<< r[1] - z[1], r[2] - z[2], r[3] - z[3], r[4] - z[4], r[5] - z[5], r[6] - z[6], r[7] - z[7] >>) ELSE r
  IN IF UGe(r2, y) THEN UDigit(y, d + 1, LSub(r2, y), FALSE) ELSE <<d, r2>>
ULongDiv(x, y, i, q, r) ==
  IF i = 0 THEN <<q, r>>
  ELSE LET r8 == << x[i], r[1], r[2], r[3], r[4], r[5], r[6], r[7] >>
           k == TopLimb(y)
           (* the top three limbs of r8 and the top two of y: at most three too small *)
           u == (IF k = 7 THEN r8[8] ELSE r8[k + 1]) * 262144 + r8[k] * 512 + Lim(r8, k - 1)
           t == y[k] * 512 + Lim(y, k - 1)
           small == r8[8] = 0 /\ ULess(SubSeq(r8, 1, 7), y)
           g == UDigit(y, u \div (t + 1), r8, TRUE)
       IN IF small THEN ULongDiv(x, y, i - 1, <<0>> \o q, SubSeq(r8, 1, 7))
          ELSE ULongDiv(x, y, i - 1, <<g[1]>> \o q, g[2])
UDivMod(x, y) == ULongDiv(x, y, 7, <<>>, ZeroL)

(* floor division and modulo (the sign of the modulo is that of the divisor) *)
SmallDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
IDivFloor(a, b) ==
  IF a[1] = "int" /\ b[1] = "int" THEN FromTLC(SmallDiv(a[2], b[2]))
  ELSE LET qr == UDivMod(MagL(a), MagL(b)) IN
       IF INegative(a) = INegative(b) THEN Norm(qr[1])
       ELSE IF qr[2] = ZeroL THEN INeg(Norm(qr[1])) ELSE ISub(<<"int", -1>>, Norm(qr[1]))
IModFloor(a, b) ==
  IF a[1] = "int" /\ b[1] = "int" THEN <<"int", a[2] - b[2] * SmallDiv(a[2], b[2])>>
  ELSE ISub(a, IMul(b, IDivFloor(a, b)))
(* truncating division and remainder, as used by a few library functions *)
IDivTrunc(a, b) == LET q == Norm(UDivMod(MagL(a), MagL(b))[1]) IN IF INegative(a) = INegative(b) THEN q ELSE INeg(q)

LMap2(Op(_,_), a, b) == LET x == Limbs(a)  y == Limbs(b) IN
  Norm(<< Op(x[1], y[1]), Op(x[2], y[2]), Op(x[3], y[3]), Op(x[4], y[4]), Op(x[5], y[5]), Op(x[6], y[6]), Op(x[7], y[7]) >>)
IAnd(a, b) == LMap2(LAMBDA p, q: p & q, a, b)
IOr(a, b) == LMap2(LAMBDA p, q: p | q, a, b)
IXor(a, b) == LMap2(LAMBDA p, q: p ^^ q, a, b)

RECURSIVE ShlN(_,_)
ShlN(l, n) == IF n = 0 THEN l
              ELSE IF n >= 9 THEN ShlN(<<0>> \o SubSeq(l, 1, NL - 1), n - 9)
              ELSE Carry([i \in 1..NL |-> l[i] * Pow2[n + 1]])
RECURSIVE ShrN(_,_,_)
(* arithmetic shift right; f is the sign fill limb *)
ShrN(l, n, f) == IF n = 0 THEN l
                 ELSE IF n >= 9 THEN ShrN(SubSeq(l, 2, NL) \o <<f>>, n - 9, f)
                 ELSE [i \in 1..NL |-> (l[i] \div Pow2[n + 1])
                          + ((IF i = NL THEN f ELSE l[i + 1]) % Pow2[n + 1]) * Pow2[10 - n]]
(* a shift amount outside -63..63 empties the value (all sign bits, or zero) *)
IShl(a, b) ==
  IF INegative(b)
  THEN LET n == IF b[1] = "int" /\ b[2] > -63 THEN -b[2] ELSE 62
           l == Limbs(a) IN Norm(ShrN(l, n, IF LNeg(l) THEN 511 ELSE 0))
  ELSE IF b[1] = "int" /\ b[2] < 63 THEN Norm(ShlN(Limbs(a), b[2])) ELSE <<"int", 0>>
IShr(a, b) ==
  IF INegative(b) THEN (IF b[1] = "int" /\ b[2] > -63 THEN Norm(ShlN(Limbs(a), -b[2])) ELSE <<"int", 0>>)
  ELSE LET n == IF b[1] = "int" /\ b[2] < 63 THEN b[2] ELSE 62
           l == Limbs(a) IN Norm(ShrN(l, n, IF LNeg(l) THEN 511 ELSE 0))

RECURSIVE IPowBits(_,_,_,_)
(* exponentiation by squaring over the bits of the exponent's limbs *)
IPowBits(base, e, b, acc) ==
  IF b < 0 THEN acc
  ELSE LET s == LMul(acc, acc) IN
       IPowBits(base, e, b - 1, IF BitOf(e, b) = 1 THEN LMul(s, base) ELSE s)
TopBit(e) == IF e[1] = "int" /\ e[2] < 512 THEN 8 ELSE 62
IPow(a, e) == Norm(IPowBits(Limbs(a), Limbs(e), TopBit(e), <<1, 0, 0, 0, 0, 0, 0>>))

RECURSIVE OnesFrom(_,_)
OnesFrom(l, b) == IF b > 62 THEN 0 ELSE BitOf(l, b) + OnesFrom(l, b + 1)
ICountOnes(a) == OnesFrom(Limbs(a), 0)

IAbs(a) == IF INegative(a) THEN INeg(a) ELSE a

RECURSIVE IGcdR(_,_)
IGcdR(a, b) == IF IZero(b) THEN a ELSE IGcdR(b, IModFloor(a, b))
IGcd(a, b) == IAbs(IGcdR(IAbs(a), IAbs(b)))

DIG == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN DIG[n + 1] ELSE NatStr(n \div 10) \o DIG[(n % 10) + 1]
TLCStr(n) == IF n < 0 THEN "-" \o NatStr(-n) ELSE NatStr(n)

LimbOf(n) == <<n, 0, 0, 0, 0, 0, 0>>
RECURSIVE UStr(_)
UStr(x) == LET qr == UDivMod(x, LimbOf(10)) IN
           (IF qr[1] = ZeroL THEN "" ELSE UStr(qr[1])) \o DIG[qr[2][1] + 1]
IStr(a) == IF a[1] = "int" THEN TLCStr(a[2])
           ELSE (IF LNeg(a[2]) THEN "-" ELSE "") \o UStr(MagL(a))

(* digits in base 2 or 16 of the 64-bit two's complement pattern (bits 63 = sign) *)
Bit64(l, b) == IF b >= 63 THEN (IF LNeg(l) THEN 1 ELSE 0) ELSE BitOf(l, b)
RECURSIVE HexFrom(_,_)
HexFrom(l, i) == IF i < 0 THEN ""
  ELSE DIG[1 + Bit64(l, 4*i) + 2 * Bit64(l, 4*i+1) + 4 * Bit64(l, 4*i+2) + 8 * Bit64(l, 4*i+3)] \o HexFrom(l, i - 1)
RECURSIVE BinFrom(_,_)
BinFrom(l, i) == IF i < 0 THEN "" ELSE DIG[1 + Bit64(l, i)] \o BinFrom(l, i - 1)
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s
IHex(a) == StripZeros(HexFrom(Limbs(a), 15))
IBin(a) == StripZeros(BinFrom(Limbs(a), 63))

MAXI == Norm(<<511, 511, 511, 511, 511, 511, 255>>)
MINI == Norm(<<0, 0, 0, 0, 0, 0, 256>>)

(* a decimal digit string to an integer, reduced mod 2^63 *)
RECURSIVE ParseDigits(_,_,_)
DigitVal(c) == CHOOSE d \in 0..9 : DIG[d + 1] = c
ParseDigits(s, i, acc) == IF i > Len(s) THEN acc
  ELSE ParseDigits(s, i + 1, IAdd(IMul(acc, <<"int", 10>>), <<"int", DigitVal(SubSeq(s, i, i))>>))
IParse(s) == IF SubSeq(s, 1, 1) = "-" THEN INeg(ParseDigits(s, 2, <<"int", 0>>)) ELSE ParseDigits(s, 1, <<"int", 0>>)

(* small integers usable as TLC integers: indices, lengths, counts *)
IsSmall(a) == a[1] = "int"
=============================================================================
