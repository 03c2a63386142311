------------------------------ MODULE CordyData ------------------------------
(***************************************************************************)
(* The data a run of the specification is about: the programs (as syntax   *)
(* trees), what the implementation was observed to do on each of them, and *)
(* two tables that TLA+ strings lack (character <-> code point).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.CORDY_DATA)
ORD  == Data.ord
CHR  == Data.chr
Progs == Data.progs

Ch(s, i) == SubSeq(s, i, i)
OrdOf(c) == ORD[c]
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

=============================================================================
