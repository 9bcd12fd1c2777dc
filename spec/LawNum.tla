------------------------------ MODULE LawNum ------------------------------
(***************************************************************************)
(* Numbers of provisions and their notations (P11, P12, P13).              *)
(*                                                                         *)
(* A behaviour builds a number step by step -- base number, branch numbers *)
(* (no eda), the end of a range with its own branch numbers -- writes it   *)
(* in one notation, and possibly damages the written text by one edit.     *)
(* Holds states that the two sides of NumText agree, and every state is    *)
(* written out to be replayed into the library.                            *)
(***************************************************************************)
EXTENDS NumText, Json, CSV

CONSTANTS Forms,      \* notations to explore
          Bases,      \* base numbers, as decimal strings
          Edas,       \* branch numbers, as decimal strings
          MaxEda, MaxREda, Ranges,
          Styles,     \* numerals headings and paragraphs are read in: "own", and others than they are written in
          MutAt,      \* damage numbers with these base numbers only
          Shard, Shards, OutFile

\* ---------------------------------------------------------------- behaviours
VARIABLES num, form, style, mut
vars == <<num, form, style, mut>>
Calm == mut = [k |-> "none"]
Hash(b) == IF Len(b) > 9 THEN Len(b) ELSE NatOf(b)
Init ==
  /\ form \in Forms
  /\ \E b \in Bases : /\ Writes(form, b) /\ Hash(b) % Shards = Shard
                      /\ num = [base |-> b, edas |-> <<>>, range |-> <<>>]
  /\ mut = [k |-> "none"]
  /\ style \in IF form \in Headings \cup {"paragraph"} THEN Styles ELSE Styles \cap {"own"}

AddEda == /\ Calm /\ num.range = <<>> /\ Len(num.edas) < MaxEda
          /\ \E e \in Edas : Writes(form, e) /\ num' = [num EXCEPT !.edas = Append(@, e)]
          /\ UNCHANGED <<form, style, mut>>
AddRange == /\ Calm /\ IF num.range = <<>> THEN \E e \in Ranges : Writes(form, e) /\ num' = [num EXCEPT !.range = <<e>>]
                       ELSE /\ Len(num.range) <= MaxREda
                            /\ \E e \in Edas : Writes(form, e) /\ num' = [num EXCEPT !.range = Append(@, e)]
            /\ UNCHANGED <<form, style, mut>>

\* characters an edit may put into a written number
Stray == IF form = "attr" THEN {"0", "7", "_", ":", "-", "a", "第", "１"}
         ELSE IF form \in Headings \cup {"paragraph"}
         THEN {"第", "条", "章", "の", "ノ", "か", "ら", "ま", "で", "一", "二", "十", "百", "千", "1", "0", "２", "０", "、", "号", "イ", "万"}
         ELSE {"（", "）", "の", "ノ", "か", "ら", "ま", "で", "一", "十", "百", "１", "０", "1", "イ", "い", "Ａ", "Ｖ", "Ｉ", "Ｘ", "Ｃ", "ａ", "ｖ", "ｉ", "ｌ", "ン", "、", "第", "①"}
\* the same number in other numerals: the j-th component (of either end) in the numerals of the style
Numeral(s, j) ==
  CASE style = "ascii" -> Chars(s)
    [] style = "zen" -> Zen(s)
    [] style = "mixed" -> IF form = "paragraph" THEN (IF j % 2 = 1 THEN Chars(s) ELSE Zen(s))
                          ELSE IF j % 3 = 1 THEN Kanji(NatOf(s)) ELSE IF j % 3 = 2 THEN Chars(s) ELSE Zen(s)
    [] style = "mixed2" -> IF form = "paragraph" THEN (IF j % 2 = 1 THEN Zen(s) ELSE Chars(s))
                           ELSE IF j % 3 = 1 THEN Chars(s) ELSE IF j % 3 = 2 THEN Zen(s) ELSE Kanji(NatOf(s))
RECURSIVE OtherBranches(_, _, _)
OtherBranches(q, i, j) == IF i > Len(q) THEN <<>>
                          ELSE <<IF (i + j) % 2 = 0 THEN "の" ELSE "ノ">> \o Numeral(q[i], i + j) \o OtherBranches(q, i + 1, j)
OtherEnd(q, j) == (IF form = "paragraph" THEN Numeral(q[1], j + 1) ELSE <<"第">> \o Numeral(q[1], j + 1) \o <<SuffixOf(form)>>)
                  \o OtherBranches(Tail(q), 1, j + 1)
Other == OtherEnd(<<num.base>> \o num.edas, 0)
         \o (IF num.range = <<>> THEN <<>> ELSE <<"か", "ら">> \o OtherEnd(num.range, Len(num.edas) + 1) \o <<"ま", "で">>)
Written == IF style = "own" THEN Render(num, form) ELSE Other
Damage ==
  /\ Calm /\ num.base \in MutAt
  /\ \E i \in 1..(Len(Written) + 1) :
       \/ i <= Len(Written) /\ mut' = [k |-> "drop", i |-> i]
       \/ i < Len(Written) /\ mut' = [k |-> "swap", i |-> i]
       \/ \E x \in Stray : \/ mut' = [k |-> "put", i |-> i, x |-> x]
                           \/ i <= Len(Written) /\ mut' = [k |-> "set", i |-> i, x |-> x]
  /\ UNCHANGED <<num, form, style>>
Next == AddEda \/ AddRange \/ Damage
Spec == Init /\ [][Next]_vars

TextOf(q) == CASE mut.k = "none" -> q
               [] mut.k = "drop" -> SubSeq(q, 1, mut.i - 1) \o SubSeq(q, mut.i + 1, Len(q))
               [] mut.k = "swap" -> [q EXCEPT ![mut.i] = q[mut.i + 1], ![mut.i + 1] = q[mut.i]]
               [] mut.k = "put" -> SubSeq(q, 1, mut.i - 1) \o <<mut.x>> \o SubSeq(q, mut.i, Len(q))
               [] mut.k = "set" -> [q EXCEPT ![mut.i] = mut.x]

\* -------------------------------------------------------------- properties
Strip(r) == [base |-> r.base, edas |-> r.edas, range |-> r.range]
\* letters that are also a roman numeral cannot be told from one
Ambiguous == form \in Items /\ PatOf(form) \in {"ZenkakuUpper", "ZenkakuLower", "ZenkakuRomanUpper", "ZenkakuRomanLower"}
\* P11-P13: what is written reads back, and as nothing else
RoundTrip(r) == Calm => IF form \in Items
                        THEN LET me == num @@ [p |-> form] IN
                             (me \in r.must \/ (Ambiguous /\ PatOf(form) \in {"ZenkakuUpper", "ZenkakuLower"} /\ r.may # {}))
                             /\ (r.must = {me} \/ Ambiguous)
                        ELSE r.must = {num} /\ r.may = {}
\* whatever is read can be written in the same notation, to a text that reads the same
Stable(r) == form \notin Items => \A m \in r.must : Writes(form, m.base) => Read(Render(m, form), form) = [must |-> {m}, may |-> {}]

Label(t) == form \o (IF style = "own" THEN "" ELSE "@" \o style) \o "/" \o (IF Calm THEN "" ELSE "edit/") \o t
Case(r, t) == [id |-> Label(t), form |-> form, text |-> t, calm |-> Calm /\ style = "own", num |-> num, must |-> r.must, may |-> r.may]
Say(what) == PrintT(<<"INVARIANT FAILS", what, num, form, mut>>) /\ FALSE
Holds == LET q == TextOf(Written)
             r == Read(q, form)
         IN /\ RoundTrip(r) \/ Say("RoundTrip")
            /\ Stable(r) \/ Say("Stable")
            /\ OutFile = "" \/ CSVWrite("%1$s", <<ToJson(Case(r, Concat(q)))>>, OutFile)
=============================================================================
