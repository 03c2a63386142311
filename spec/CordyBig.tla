------------------------------- MODULE CordyBig -------------------------------
(***************************************************************************)
(* Arbitrary precision integers: <<negative, digits>>, digits in base 1000 *)
(* (least significant first, no leading zeros; zero is <<FALSE, <<>>>>).   *)
(***************************************************************************)
EXTENDS CordyInt

BB == 1000
NDig(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
RECURSIVE NTrim(_), NCarry(_,_,_,_)
NTrim(s) == IF Len(s) > 0 /\ s[Len(s)] = 0 THEN NTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
NCarry(s, i, c, acc) ==
  IF i > Len(s) THEN (IF c = 0 THEN NTrim(acc) ELSE NCarry(s, i + 1, c \div BB, Append(acc, c % BB)))
  ELSE NCarry(s, i + 1, (s[i] + c) \div BB, Append(acc, (s[i] + c) % BB))
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
NAdd(a, b) == NCarry([i \in 1..MaxLen(a, b) |-> NDig(a, i) + NDig(b, i)], 1, 0, <<>>)
NSub(a, b) == NCarry([i \in 1..Len(a) |-> a[i] - NDig(b, i)], 1, 0, <<>>)     \* a >= b
RECURSIVE NConv(_,_,_,_), NCmpFrom(_,_,_)
NConv(a, b, k, i) == IF i > k THEN 0 ELSE NDig(a, i) * NDig(b, k + 1 - i) + NConv(a, b, k, i + 1)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE NCarry([k \in 1..(Len(a) + Len(b) - 1) |-> NConv(a, b, k, 1)], 1, 0, <<>>)
NCmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE NCmpFrom(a, b, i - 1)
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE NCmpFrom(a, b, Len(a))
(* the digit q with q * b <= r < (q + 1) * b *)
RECURSIVE NHead(_,_), NQuot(_,_,_,_), NLong(_,_,_,_,_)
NQuot(r, b, lo, hi) == IF lo = hi THEN lo ELSE
  LET m == (lo + hi + 1) \div 2 IN IF NCmp(NMul(b, <<m>>), r) <= 0 THEN NQuot(r, b, m, hi) ELSE NQuot(r, b, lo, m - 1)
(* the leading digits of r and b bound the next digit of the quotient; b <= r < 1000 b *)
NHead(r, k) == IF k = 0 THEN 0 ELSE r[Len(r)] * (IF k = 1 THEN 1 ELSE IF k = 2 THEN BB ELSE BB * BB) + (IF k = 1 THEN 0 ELSE NHead(SubSeq(r, 1, Len(r) - 1), k - 1))
NMin(x, y) == IF x < y THEN x ELSE y
NDigit(r, b) ==
  LET k == IF Len(b) >= 2 THEN 2 ELSE 1
      rh == NHead(r, k + Len(r) - Len(b))
      bh == NHead(b, k)
      lo == rh \div (bh + 1)
  IN NQuot(r, b, IF lo < 1 THEN 1 ELSE lo, NMin(999, (rh + 1) \div bh))
NLong(a, b, i, q, r) == IF i = 0 THEN <<NTrim(q), r>>
  ELSE LET r2 == NTrim(<<a[i]>> \o r)
           d == IF NCmp(r2, b) < 0 THEN 0 ELSE NDigit(r2, b)
       IN NLong(a, b, i - 1, <<d>> \o q, IF d = 0 THEN r2 ELSE NSub(r2, NMul(b, <<d>>)))
NDivMod(a, b) == NLong(a, b, Len(a), <<>>, <<>>)
RECURSIVE NGcd(_,_)
NGcd(a, b) == IF b = <<>> THEN a ELSE NGcd(b, NDivMod(a, b)[2])
RECURSIVE NPow(_,_)
NPow(a, n) == IF n = 0 THEN <<1>> ELSE LET h == NPow(a, n \div 2)  q == NMul(h, h) IN IF n % 2 = 1 THEN NMul(q, a) ELSE q
RECURSIVE NRoot(_,_)
(* integer square root by Newton's iteration from above *)
NRoot(n, x) == LET y == NDivMod(NAdd(x, NDivMod(n, x)[1]), <<2>>)[1] IN IF NCmp(x, y) <= 0 THEN x ELSE NRoot(n, y)
NSqrt(n) == IF n = <<>> THEN n ELSE NRoot(n, n)

BZero == <<FALSE, <<>>>>
BOne == <<FALSE, <<1>>>>
BMk(neg, d) == <<neg /\ d # <<>>, d>>
BNeg(a) == BMk(~a[1], a[2])
BAbs(a) == <<FALSE, a[2]>>
BAdd(a, b) == IF a[1] = b[1] THEN BMk(a[1], NAdd(a[2], b[2]))
              ELSE IF NCmp(a[2], b[2]) >= 0 THEN BMk(a[1], NSub(a[2], b[2])) ELSE BMk(b[1], NSub(b[2], a[2]))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == BMk(a[1] # b[1], NMul(a[2], b[2]))
BIsZero(a) == a[2] = <<>>
BCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] THEN -1 ELSE 1)
              ELSE IF a[1] THEN NCmp(b[2], a[2]) ELSE NCmp(a[2], b[2])
RECURSIVE BFromLimbs(_,_,_)
BFromLimbs(l, i, acc) == IF i = 0 THEN acc ELSE BFromLimbs(l, i - 1, NAdd(NMul(acc, <<512>>), NTrim(<<l[i]>>)))
NFromSmall(n) == NTrim(<<n % BB, (n \div BB) % BB, (n \div 1000000) % BB, n \div 1000000000>>)
(* a 63-bit integer as a big one, and back (the caller knows it fits) *)
BFromI(v) == IF v[1] = "int" THEN BMk(v[2] < 0, NFromSmall(IF v[2] < 0 THEN -v[2] ELSE v[2]))
             ELSE BMk(LNeg(v[2]), BFromLimbs(IF LNeg(v[2]) THEN UNegL(v[2]) ELSE v[2], NL, <<>>))
RECURSIVE BHorner(_,_,_)
BHorner(d, i, acc) == IF i = 0 THEN acc ELSE BHorner(d, i - 1, IAdd(IMul(acc, I(BB)), I(d[i])))
BToI(a) == LET m == BHorner(a[2], Len(a[2]), I(0)) IN IF a[1] THEN INeg(m) ELSE m
BFits(a) == BCmp(a, BFromI(MINI)) >= 0 /\ BCmp(a, BFromI(MAXI)) <= 0
Dig3(n) == DIG[(n \div 100) + 1] \o DIG[((n \div 10) % 10) + 1] \o DIG[(n % 10) + 1]
RECURSIVE NText(_,_)
NText(d, i) == IF i = 0 THEN "" ELSE Dig3(d[i]) \o NText(d, i - 1)
BStr(a) == IF a[2] = <<>> THEN "0"
           ELSE (IF a[1] THEN "-" ELSE "") \o TLCStr(a[2][Len(a[2])]) \o NText(a[2], Len(a[2]) - 1)
RECURSIVE BParseD(_,_,_)
BParseD(s, i, acc) == IF i > Len(s) THEN acc
  ELSE BParseD(s, i + 1, NAdd(NMul(acc, <<10>>), NTrim(<<DigitVal(SubSeq(s, i, i))>>)))
(* a string of decimal digits *)
BParse(neg, s) == BMk(neg, BParseD(s, 1, <<>>))
=============================================================================
