-------------------------------- MODULE Str --------------------------------
(***************************************************************************)
(* Character-level operators over TLC strings, used by every other module. *)
(* (TLC lets Len / SubSeq / \o work on strings, one character at a time.)   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)
RECURSIVE CharsFrom(_, _)
CharsFrom(s, i) == IF i > Len(s) THEN <<>> ELSE <<Ch(s, i)>> \o CharsFrom(s, i + 1)
Chars(s) == CharsFrom(s, 1)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, sep, i) ==
  IF i > Len(q) THEN ""
  ELSE IF i = Len(q) THEN q[i]
  ELSE q[i] \o sep \o JoinFrom(q, sep, i + 1)
Join(q, sep) == JoinFrom(q, sep, 1)
Concat(q) == Join(q, "")

\* Split a string at every occurrence of the one-character separator.
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, sep, i, acc) ==
  IF i > Len(s) THEN <<acc>>
  ELSE IF Ch(s, i) = sep THEN <<acc>> \o SplitFrom(s, sep, i + 1, "")
  ELSE SplitFrom(s, sep, i + 1, acc \o Ch(s, i))
Split(s, sep) == SplitFrom(s, sep, 1, "")

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
DigitVal(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1

IsNatStr(s) == Len(s) > 0 /\ Len(s) <= 9 /\ \A i \in 1..Len(s) : IsDigit(Ch(s, i))
RECURSIVE NatOfFrom(_, _, _)
NatOfFrom(s, i, acc) ==
  IF i > Len(s) THEN acc ELSE NatOfFrom(s, i + 1, acc * 10 + DigitVal(Ch(s, i)))
NatOf(s) == NatOfFrom(s, 1, 0)
StrOf(n) == ToString(n)
=============================================================================
