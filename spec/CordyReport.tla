----------------------------- MODULE CordyReport -----------------------------
(***************************************************************************)
(* The text of an error report: the message, where it is, the calls which  *)
(* led there, and the lines of the program with the place underlined.      *)
(* L are the lines of the program.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

RECURSIVE Times(_,_), Indent(_,_), Listing(_,_,_,_)
Times(t, n) == IF n = 0 THEN "" ELSE t \o Times(t, n - 1)
(* what stands before column c of a line: blanks, but tabs where there are *)
Indent(line, c) == IF c = 0 THEN ""
                   ELSE IF c > Len(line) THEN Indent(line, c - 1)
                   ELSE Indent(line, c - 1) \o (IF SubSeq(line, c, c) = "\t" THEN "\t" ELSE " ")
Gutter(i, w) == LET d == ToString(i) IN Times(" ", w - Len(d)) \o d \o " |"
Listing(L, a, b, w) == IF a > b THEN "" ELSE Gutter(a, w) \o (IF L[a] = "" THEN "" ELSE " " \o L[a]) \o "\n" \o Listing(L, a + 1, b, w)
RECURSIVE Longest(_,_,_)
Longest(L, a, b) == IF a > b THEN 0 ELSE LET r == Longest(L, a + 1, b) IN IF Len(L[a]) > r THEN Len(L[a]) ELSE r

(* lines a to b, with n characters after column c underlined if it is one line *)
Snippet(L, a, b, c, n) ==
  LET w == Len(ToString(b + 1))
      under == IF a = b THEN (IF L[a] = "" THEN "" ELSE " " \o Indent(L[a], c)) \o Times("^", n)
               ELSE IF Longest(L, a, b) = 0 THEN "" ELSE " " \o Times("^", Longest(L, a, b))
  IN Listing(L, a, b, w) \o Gutter(b + 1, w) \o under \o "\n"

(* the end of a line may be underlined, and an error at the end of a text *)
(* is shown by three characters after the last line                       *)
Inside(L, r) ==
  /\ 1 <= r.a /\ r.a <= r.b /\ r.b <= Len(L)
  /\ r.a = r.b => r.n >= 1 /\ r.c <= Len(L[r.a]) + 1 /\ r.c + r.n <= Len(L[r.a]) + 4
ReportText(L, file, r) ==
  r.msg \o "\n  at: line " \o ToString(r.a) \o (IF r.a = r.b THEN "" ELSE " - " \o ToString(r.b)) \o " (" \o file \o ")\n" \o r.trace \o "\n"
        \o Snippet(L, r.a, r.b, r.c, r.n)
(* What the message names is what is underlined: the token which was found,  *)
(* or the end of the text, which is after its last token, on line eof.       *)
Ends(t, u) == Len(t) >= Len(u) /\ SubSeq(t, Len(t) - Len(u) + 1, Len(t)) = u
Under(L, r) == SubSeq(L[r.a], r.c + 1, IF r.c + r.n < Len(L[r.a]) THEN r.c + r.n ELSE Len(L[r.a]))
QUOTES == {"'", "\""}
Names(msg, u) ==
  \/ Ends(msg, ", got '" \o u \o "' token instead") \/ Ends(msg, ", got '" \o u \o "' keyword instead") \/ Ends(msg, ", got identifier '" \o u \o "' instead")
  \/ Ends(msg, ", got '" \o u \o "' instead")
  \/ u # "" /\ SubSeq(u, 1, 1) = "*" /\ (Ends(msg, ", got '*' token instead") \/ Ends(msg, ", got '*_' instead")) \* a misplaced `*name`
  \/ u # "" /\ SubSeq(u, 1, 1) \in QUOTES /\ Ends(msg, "' instead")
  \/ u # "" /\ SubSeq(u, 1, 1) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} /\ Ends(msg, "' instead")
Points(L, eof, r) ==
  IF Ends(r.msg, ", got end of input instead") THEN eof # 0 => r.a = eof /\ r.b = eof /\ r.c = (IF L[eof] = "" THEN 0 ELSE Len(L[eof])) /\ r.n = 3
  ELSE IF r.a = r.b /\ (Ends(r.msg, " token instead") \/ Ends(r.msg, " keyword instead") \/ Ends(r.msg, "' instead")) THEN Names(r.msg, Under(L, r))
  ELSE TRUE
(* r: how the report `rep` is to be read; untrusted *)
WellFormed(L, eof, file, rep, r) == Inside(L, r) /\ Points(L, eof, r) /\ rep = ReportText(L, file, r)
=============================================================================
