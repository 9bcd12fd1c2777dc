------------------------------ MODULE LawMeta ------------------------------
(***************************************************************************)
(* What is given beside a law's text: its date, kind, language, number and *)
(* title (P18).                                                            *)
(*                                                                         *)
(* The calendar is a machine that goes from one day to the next; an era    *)
(* begins on its exact day, and its first year lasts until the end of      *)
(* December. On every day a law may be promulgated, with the date in full  *)
(* or in part, or with a day or month that does not exist.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, CSV

CONSTANTS Years,        \* years to walk through
          Metas,        \* whether to go through kinds, languages, numbers and titles
          Shard, Shards, OutFile

EraNames == <<"Meiji", "Taisho", "Showa", "Heisei", "Reiwa">>
FirstDay == <<<<1868, 1, 25>>, <<1912, 7, 30>>, <<1926, 12, 25>>, <<1989, 1, 8>>, <<2019, 5, 1>>>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
\* the era of a day, by what has begun: 0 before the first
EraOf(x) == LET B == {i \in 1..5 : ~Before(x, FirstDay[i])} IN IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : j <= i
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
LastDay(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31

VARIABLES y, m, d,      \* today
          era, ey,      \* the era and its year, carried from day to day
          law           \* the law promulgated, if one is
vars == <<y, m, d, era, ey, law>>

None == [given |-> FALSE]
Kinds == {"Constitution", "Act", "CabinetOrder", "ImperialOrder", "MinisterialOrdinance", "Rule", "Misc"}
Numbers == {"", "1", "127", "3_2", "18446744073709551615"}
LawNums == {"平成十一年法律第百二十七号", "", " ", "昭和二十年＜勅令＞第5号 <&\"'>", "令和 元年　政令\t第一号", "　昭和二十年勅令第五号　", " 昭和二十年勅令第五号 "}
Titles == {"民法", "昭和 二十年 <&> 法律", "第一条　附則", "一", "　民法", "民法　", " 民法 ", "民法\n", "（題名）"}
Usual == [kind |-> "Act", lang |-> "Ja", num |-> "", lawnum |-> "平成十一年法律第百二十七号", title |-> "題名"]

Init == /\ y \in {x \in Years : x % Shards = Shard} /\ m = 1 /\ d = 1
        /\ era = EraOf(<<y, 1, 1>>)
        /\ ey = IF era = 0 THEN 0 ELSE y - FirstDay[era][1] + 1
        /\ law = None
Tomorrow == /\ ~law.given /\ ~(m = 12 /\ d = 31)
            /\ d' = IF d = LastDay(y, m) THEN 1 ELSE d + 1
            /\ m' = IF d = LastDay(y, m) THEN m + 1 ELSE m
            /\ LET begun == {i \in 1..5 : FirstDay[i] = <<y, m', d'>>} IN
               IF begun = {} THEN UNCHANGED <<era, ey>> ELSE era' = (CHOOSE i \in begun : TRUE) /\ ey' = 1
            /\ UNCHANGED <<y, law>>
\* eras a date given in part may mean
Partly(M, D) == {<<i, y - FirstDay[i][1] + 1>> : i \in {EraOf(<<y, a, b>>) : a \in M, b \in D} \ {0}}
Give(mm, dd, may, refuse, with) ==
  law' = [given |-> TRUE, month |-> mm, day |-> dd, may |-> may, refuse |-> refuse, with |-> with]
Today == IF era = 0 THEN {} ELSE {<<era, ey>>}
Promulgate == /\ ~law.given
              /\ \/ Give(m, d, Today, era = 0, Usual)
                 \/ d = 1 /\ Give(m, -1, Partly({m}, 1..LastDay(y, m)), EraOf(<<y, m, LastDay(y, m)>>) = 0, Usual)
                 \/ d = 1 /\ m = 1 /\ Give(-1, -1, Partly(1..12, 1..31), EraOf(<<y, 12, 31>>) = 0, Usual)
                 \* a day of some month
                 \/ m = 1 /\ Give(-1, d, Partly({a \in 1..12 : d <= LastDay(y, a)}, {d}), EraOf(<<y, 12, d>>) = 0, Usual)
                 \/ m = 1 /\ d = 1 /\ \E x \in {0, 32, 33, 60, 257} : Give(-1, x, {}, TRUE, Usual)
                 \/ d = LastDay(y, m) /\ \E x \in {0, 33, 60, 256 + d} \cup (d + 1)..32 : Give(m, x, {}, TRUE, Usual)
                 \/ d = 31 /\ m = 12 /\ \E x \in {0, 13, 14, 256 + 12} : \E w \in {1, 31} : Give(x, w, {}, TRUE, Usual)
                 \/ Metas /\ d = 15 /\ m = 6 /\ era # 0
                    /\ \E k \in Kinds, l \in {"Ja", "En"}, n \in Numbers, b \in LawNums, t \in Titles :
                         Give(m, d, Today, FALSE, [kind |-> k, lang |-> l, num |-> n, lawnum |-> b, title |-> t])
              /\ UNCHANGED <<y, m, d, era, ey>>
Next == Tomorrow \/ Promulgate
Spec == Init /\ [][Next]_vars

\* the era carried along is the era of the day, counted from its first year
Carried == era = EraOf(<<y, m, d>>) /\ (era # 0 => ey = y - FirstDay[era][1] + 1)
\* years of an era are counted from one
Counted == era # 0 => ey >= 1
RECURSIVE Listed(_)
Listed(q) == IF q = {} THEN <<>> ELSE LET e == CHOOSE e \in q : TRUE IN <<[era |-> EraNames[e[1]], year |-> e[2]]>> \o Listed(q \ {e})
Case == [id |-> ToString(y) \o "-" \o ToString(law.month) \o "-" \o ToString(law.day) \o (IF law.with = Usual THEN "" ELSE ToString(law.with)),
         year |-> y, month |-> law.month, day |-> law.day, may |-> Listed(law.may),
         \* a date given in part that may lie before the first era
         open |-> ((law.day = -1 \/ law.month = -1) /\ EraOf(<<y, m, d>>) = 0), refuse |-> law.refuse, with |-> law.with,
         \* a law number of blanks has no XML form
         blank |-> law.with.lawnum = " "]
Holds == /\ Carried /\ Counted
         /\ ~law.given \/ OutFile = "" \/ CSVWrite("%1$s", <<ToJson(Case)>>, OutFile)
=============================================================================
