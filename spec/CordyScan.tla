-------------------------------- MODULE CordyScan --------------------------------
(***************************************************************************)
(* The tokens of a text.  A text is a sequence of characters, cs.          *)
(*                                                                         *)
(* Scan(cs) gives its pieces, from left to right: tokens, and places which *)
(* are not of the language, which reject the whole text.  A piece is       *)
(*   k     "id" "kw" "int" "cpx" "str" "sym" or "err"                      *)
(*   v     identifiers, keywords, symbols: the same; strings: the value;   *)
(*         numbers: the digits; errors: what is reported                   *)
(*   base  of a number         nl    is there a line break before it       *)
(*   a, b  its characters      ea, eb  what the report of an error shows   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CharsOf(t) == [i \in 1 .. Len(t) |-> SubSeq(t, i, i)]
RECURSIVE Joined(_,_,_)
Joined(cs, a, b) == IF a > b THEN "" ELSE cs[a] \o Joined(cs, a + 1, b)
SetOf(t) == {SubSeq(t, i, i) : i \in 1 .. Len(t)}

DIGIT == SetOf("0123456789")
LETTER == SetOf("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
WORD == DIGIT \cup LETTER \cup {"_"}
BLANK == {" ", "\t", "\r", "\n"}
HEXA == DIGIT \cup SetOf("abcdefABCDEF")
KEYWORDS == {"let", "fn", "return", "if", "elif", "else", "then", "loop", "while", "for", "in", "is", "not", "break", "continue", "do", "true", "false", "nil",
             "struct", "exit", "assert", "module", "self", "native", "and", "or"}
SYM1 == SetOf("+-*/|&^%.()[]{},:_;@?=<>!")
SYM2 == {"==", "!=", "<=", ">=", "<<", ">>", "->", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "%=", ".=", "**"}
SYM3 == {"...", "<<=", ">>=", "**="}

(* the first place from i on whose character is not of C *)
RECURSIVE Run1(_,_,_), Until(_,_,_), EndOfString(_,_,_)
Run1(cs, i, C) == IF i <= Len(cs) /\ cs[i] \in C THEN Run1(cs, i + 1, C) ELSE i
(* the place of the characters u, after the end if there is none *)
Until(cs, i, u) == IF i + Len(u) - 1 > Len(cs) THEN Len(cs) + 1 ELSE IF Joined(cs, i, i + Len(u) - 1) = u THEN i ELSE Until(cs, i + 1, u)
(* the place of the quote which ends a string.  Carriage returns are not there at all *)
EscapedAt(cs, i) == Run1(cs, i + 1, {"\r"})
EndOfString(cs, i, q) ==
  IF i > Len(cs) THEN Len(cs) + 1
  ELSE IF cs[i] = q THEN i
  ELSE IF cs[i] = "\\" THEN EndOfString(cs, EscapedAt(cs, i) + 1, q)
  ELSE EndOfString(cs, i + 1, q)
ESCAPES == {"n", "r", "t", "\\", "'", "\""}
Escape(c) == CASE c = "n" -> "\n" [] c = "r" -> "\r" [] c = "t" -> "\t" [] OTHER -> c
RECURSIVE StringValue(_,_,_)
StringValue(cs, i, e) ==
  IF i >= e THEN ""
  ELSE IF cs[i] = "\r" THEN StringValue(cs, i + 1, e)
  ELSE IF cs[i] = "\\" THEN LET j == EscapedAt(cs, i) IN
       (IF j >= e THEN "" ELSE IF cs[j] \in ESCAPES THEN Escape(cs[j]) ELSE "\\" \o cs[j]) \o StringValue(cs, j + 1, e)
  ELSE cs[i] \o StringValue(cs, i + 1, e)
RECURSIVE Breaks(_,_,_)
Breaks(cs, a, b) == IF a > b \/ a > Len(cs) THEN 0 ELSE (IF cs[a] = "\n" THEN 1 ELSE 0) + Breaks(cs, a + 1, b)

(* digits without separators, and without the zeros in front *)
RECURSIVE Digits(_,_,_)
Digits(cs, a, b) == IF a > b THEN "" ELSE (IF cs[a] = "_" THEN "" ELSE cs[a]) \o Digits(cs, a + 1, b)
RECURSIVE Bare(_)
Bare(d) == IF d = "" \/ SubSeq(d, 1, 1) # "0" THEN d ELSE Bare(SubSeq(d, 2, Len(d)))
RECURSIVE NotMore(_,_,_)
OrderOf(c) == CHOOSE i \in 1 .. 10 : SubSeq("0123456789", i, i) = c
NotMore(d, e, i) == IF i > Len(d) THEN TRUE
                    ELSE LET x == OrderOf(SubSeq(d, i, i)) y == OrderOf(SubSeq(e, i, i)) IN x < y \/ (x = y /\ NotMore(d, e, i + 1))
MAX64 == "9223372036854775807"
(* does the number fit in 64 bits *)
Fits(d, base) ==
  CASE base = 10 -> Len(d) < Len(MAX64) \/ (Len(d) = Len(MAX64) /\ NotMore(d, MAX64, 1))
    [] base = 2 -> Len(d) < 64
    [] OTHER -> Len(d) < 16 \/ (Len(d) = 16 /\ SubSeq(d, 1, 1) \in SetOf("01234567"))

Piece(k, v, a, b) == [k |-> k, v |-> v, a |-> a, b |-> b, nl |-> FALSE, base |-> 10, ea |-> a, eb |-> b]
Number2(cs, a, e, base, d, j) ==
  LET p == [Piece(IF e > j THEN "cpx" ELSE "int", Bare(d), a, e - 1) EXCEPT !.base = base] IN
  IF d = "" THEN [p EXCEPT !.k = "err", !.v = "Invalid numeric value: cannot parse integer from empty string"]
  ELSE IF ~Fits(Bare(d), base) THEN [p EXCEPT !.k = "err", !.v = "Invalid numeric value: number too large to fit in target type"]
  ELSE p
(* digits from i to j, and perhaps an i or j *)
Number1(cs, a, i, j, base) == Number2(cs, a, IF j <= Len(cs) /\ cs[j] \in {"i", "j"} THEN j + 1 ELSE j, base, Digits(cs, i, j - 1), j)
Zero(cs, a) ==
  IF a = Len(cs) THEN Piece("int", "", a, a)
  ELSE LET c == cs[a + 1] IN
  CASE c = "x" -> Number1(cs, a, a + 2, Run1(cs, a + 2, HEXA \cup {"_"}), 16)
    [] c = "b" -> Number1(cs, a, a + 2, Run1(cs, a + 2, {"0", "1", "_"}), 2)
    [] c \in {"i", "j"} -> Piece("cpx", "", a, a + 1)
    [] c \in WORD -> [Piece("err", "Invalid numeric prefix: '0" \o c \o "'", a, a) EXCEPT !.eb = a + 1]
    [] OTHER -> Piece("int", "", a, a)
Word(cs, a, e) == Piece(IF Joined(cs, a, e) \in KEYWORDS THEN "kw" ELSE "id", Joined(cs, a, e), a, e)
Symbol(cs, a) ==
  IF a + 2 <= Len(cs) /\ Joined(cs, a, a + 2) \in SYM3 THEN Piece("sym", Joined(cs, a, a + 2), a, a + 2)
  ELSE IF a + 1 <= Len(cs) /\ Joined(cs, a, a + 1) \in SYM2 THEN Piece("sym", Joined(cs, a, a + 1), a, a + 1)
  ELSE Piece("sym", cs[a], a, a)
TokenAt(cs, a) ==
  CASE cs[a] \in LETTER -> Word(cs, a, Run1(cs, a, WORD) - 1)
    [] cs[a] = "0" -> Zero(cs, a)
    [] cs[a] \in DIGIT -> Number1(cs, a, a, Run1(cs, a, DIGIT \cup {"_"}), 10)
    [] cs[a] \in {"'", "\""} -> LET e == EndOfString(cs, a + 1, cs[a]) IN
         IF e > Len(cs) THEN Piece("open", "Unterminated string literal (missing a closing quote)", a, Len(cs)) ELSE Piece("str", StringValue(cs, a + 1, e), a, e)
    [] cs[a] \in SYM1 -> Symbol(cs, a)
    [] OTHER -> Piece("err", "Invalid character: '" \o cs[a] \o "'", a, a)

(* the place where the next piece begins, or a comment without end *)
Starts(cs, i, u) == i + 1 <= Len(cs) /\ cs[i] = "/" /\ cs[i + 1] = u
RECURSIVE Skip(_,_)
Skip(cs, i) == IF i > Len(cs) THEN i
               ELSE IF cs[i] \in BLANK THEN Skip(cs, i + 1)
               ELSE IF Starts(cs, i, "/") THEN Skip(cs, Until(cs, i, "\n"))
               ELSE IF Starts(cs, i, "*") THEN (IF Until(cs, i + 2, "*/") > Len(cs) THEN i ELSE Skip(cs, Until(cs, i + 2, "*/") + 2))
               ELSE i
(* the second of two dots is one of its own *)
Dotted(cs, i, acc) == cs[i] = "." /\ acc # <<>> /\ acc[Len(acc)].v = "." /\ acc[Len(acc)].k = "sym" /\ acc[Len(acc)].b = i - 1
RECURSIVE ScanFrom(_,_,_), ScanAt(_,_,_,_)
ScanAt(cs, i, from, acc) ==
  IF i > Len(cs) THEN acc
  ELSE IF Starts(cs, i, "*") THEN Append(acc, Piece("err", "Unterminated block comment (missing a closing '*/')", i, Len(cs)))
  ELSE LET t == [(IF Dotted(cs, i, acc) THEN Piece("sym", ".", i, i) ELSE TokenAt(cs, i)) EXCEPT !.nl = Breaks(cs, from, i - 1) > 0] IN ScanFrom(cs, t.b + 1, Append(acc, t))
ScanFrom(cs, i, acc) == ScanAt(cs, Skip(cs, i), i, acc)
Scan(cs) == ScanFrom(cs, 1, <<>>)
Ill(t) == t.k \in {"err", "open"}
IllPieces(ts) == SelectSeq(ts, Ill)
=============================================================================
