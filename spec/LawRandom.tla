------------------------------ MODULE LawRandom ------------------------------
(***************************************************************************)
(* Whole law documents of any size and shape, drawn from the schema (P01,  *)
(* P02, P03, P06, P07, P10).                                               *)
(*                                                                         *)
(* LawDocs enumerates every small document around one element; here a      *)
(* behaviour goes through drawn documents one after another: every element *)
(* of such a document has drawn attributes, children and texts, down to    *)
(* any depth, until its fuel is used up. The draw is a function of a seed, *)
(* so every run can be repeated.                                           *)
(***************************************************************************)
EXTENDS LawSchema, Json, CSV, Integers

CONSTANTS From, Count,    \* the seeds to draw from
          Fuels,          \* how large documents may grow (at most)
          Noises,         \* whether the surface is disturbed as well
          Injured,    \* whether one element somewhere is broken (P04)
          Tops,           \* elements put straight into the document, so that they are met often ({} = none)
          Shard, Shards, OutFile

\* ---------------------------------------------------------------- drawing
\* a seed is a pair of numbers below 2^15; Sub(s, k) is the k-th seed made from s
Sub(s, k) == <<(s[1] * 31013 + s[2] * 17 + k * 271 + 5) % 32749, (s[2] * 29989 + s[1] * 23 + k * 613 + 11) % 32719>>
Draw(s, n) == LET t == Sub(Sub(s, 3), 1) IN ((t[1] % 30011) * 7 + (t[2] % 29989) * 3) % n
One_(s, q) == q[Draw(s, Len(q)) + 1]
Yes(s, n) == Draw(s, n) = 0     \* once in n times

Pool == <<"本", "文", "第", "一", "条", "の", "、", "。", "（", "）", "a", "Z", "0", "9", "<", ">", "&", "\"", "'", " ", "　", "\t", "\n",
          "𠮷", "家", "é", "]]>", "&amp;", "--", "/>", "<!--", "-->", "<?", "?>", "<![CDATA[", "<!-- x -->", "\\", "{", "}", "%", "★", "漢", "か゛", "ｶﾞ", "Ⅳ", "①", "～", "—", "\\n", "&#10;", "<br/>",
          " ", "​", "﻿", " ", "", "〜", "−", "が", "か゚", "　　", "  ", "\t\t", "\n\n", "、、", "ああ", "（（", "　", " ", "�", "􏿽">>
RECURSIVE Letters(_, _)
Letters(s, n) == IF n = 0 THEN "" ELSE One_(Sub(s, n), Pool) \o Letters(s, n - 1)
RECURSIVE Fold(_, _)
Fold(t, n) == IF n = 0 THEN t ELSE Fold(t \o t, n - 1)
\* texts: mostly short, seldom long, never of blanks alone
RText(s) == LET t == Letters(s, One_(Sub(s, 1), <<1, 1, 2, 3, 4, 6, 9, 15>>))
                u == IF IsBlank(t) THEN t \o "字" ELSE t
            IN IF Yes(Sub(s, 2), 60) THEN Fold(u, One_(Sub(s, 3), <<5, 7, 10>>)) ELSE u
RStr(s) == CASE Yes(s, 12) -> "" [] Yes(Sub(s, 7), 12) -> " " [] OTHER -> RText(s)
RNum(s) == StrOf(One_(s, <<0, 1, 1, 2, 3, 4, 5, 9, 10, 11, 38, 99, 255, 256, 300, 1000, 65535, 65536, 99999, 16777217, 999999999>>))
RECURSIVE RNums(_, _)
RNums(s, n) == IF n = 0 THEN "" ELSE RNum(Sub(s, n)) \o (IF n = 1 THEN "" ELSE "_") \o RNums(s, n - 1)
RArt(s) == LET k == One_(s, <<1, 1, 1, 1, 2, 2, 3, 4, 6>>) IN
           RNums(Sub(s, 1), k) \o (IF Yes(Sub(s, 2), 5) THEN ":" \o RNums(Sub(s, 3), One_(Sub(s, 4), <<1, 1, 2, 3, 5>>)) ELSE "")
RVal(d, s) ==
  CASE d.k = "str" -> RStr(s)
    [] d.k = "usize" -> IF d.p = "blankopt" /\ Yes(s, 5) THEN "" ELSE RNum(s)
    [] d.k = "bool" -> One_(s, <<"true", "true", "false">>)
    [] d.k = "artnum" -> IF d.p = "blank" /\ Yes(s, 5) THEN "" ELSE RArt(s)
    [] d.k = "artnumopt" -> IF Yes(s, 8) THEN One_(Sub(s, 9), <<"", "x", "1_x", "イ">>) ELSE RArt(s)
    [] OTHER -> One_(s, EnumOf(d.k))[1]
RECURSIVE RAttrs(_, _, _)
RAttrs(ds, s, i) ==
  IF i > Len(ds) THEN <<>>
  ELSE (IF ds[i].p \in {"req", "reqopt", "blank"} \/ ~Yes(Sub(s, i), 2) THEN << <<ds[i].n, RVal(ds[i], Sub(s, 40 + i))>> >> ELSE <<>>)
       \o RAttrs(ds, s, i + 1)

\* ------------------------------------------------------------- documents
IsTextKind(k) == k \in {"text", "twm", "textin"}
AltsOf(d) == IF IsTextKind(d.k) THEN TextInline ELSE d.alts
Optional == {"opt", "text0", "textne", "vec0"}
\* the plan of an element's children: a sequence of tags ("" = text)
Times(s, f) == IF f <= 0 THEN 0 ELSE IF f > 40 /\ Yes(Sub(s, 1), 15) THEN 17 + Draw(Sub(s, 2), 20) ELSE One_(s, <<0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 6>>)
RECURSIVE Alts(_, _, _)
Alts(alts, s, n) == IF n = 0 THEN <<>> ELSE <<One_(Sub(s, n), alts)[1]>> \o Alts(alts, s, n - 1)
RECURSIVE Mixture(_, _, _, _)
Mixture(alts, s, n, f) ==
  IF n = 0 THEN <<>>
  ELSE <<IF f <= 0 \/ alts = <<>> \/ Yes(Sub(s, n), 2) THEN "" ELSE One_(Sub(s, n + 50), alts)[1]>> \o Mixture(alts, s, n - 1, f)
RECURSIVE Plan(_, _, _, _)
Plan(slots, s, f, i) ==
  IF i > Len(slots) THEN <<>>
  ELSE LET z == slots[i] t == z.alts[1][1] q == Sub(s, i)
           here == CASE z.card = "one" -> <<t>>
                     [] z.card \in Optional -> IF f > 0 /\ Yes(q, 2) THEN <<t>> ELSE <<>>
                     [] OTHER -> IF Yes(Sub(q, 4), 2) THEN <<>> ELSE Alts(z.alts, Sub(q, 5), Times(Sub(q, 6), f))
       IN here \o Plan(slots, s, f, i + 1)
Least(n, m) == IF n < m THEN m ELSE n
PlanOf(t, s, f) ==
  LET d == Def[t] IN
  CASE d.k \in {"rec", "struct"} -> Plan(d.slots, s, f, 1)
    [] IsTextKind(d.k) \/ d.k \in {"mixed", "any"} -> Mixture(AltsOf(d), s, IF f <= 0 THEN 1 ELSE One_(Sub(s, 1), <<0, 1, 1, 1, 2, 3, 5>>), f)
    [] d.k \in {"str", "supsub"} -> IF Yes(s, 10) THEN <<>> ELSE <<"">>
    [] d.k = "ruby" -> <<"", "Rt">>
    [] d.k \in {"vec", "seqvar"} -> Alts(d.alts, s, Times(Sub(s, 1), f))
    [] d.k = "single" -> <<d.alts[1][1]>>
    [] d.k = "soct" -> LET k == IF f <= 0 THEN "Sentence" ELSE One_(Sub(s, 1), <<"Sentence", "Sentence", "Sentence", "Column", "Column", "Table">>) IN
                       IF k = "Table" THEN <<k>> ELSE [i \in 1..Least(Times(Sub(s, 2), f), 1) |-> k]
RECURSIVE Grow(_, _, _)
Grow(t, s, f) ==
  LET p == PlanOf(t, Sub(s, 1), f)
      k == Len(p)
      left == f - k
      \* one child gets the most of what is left
      fav == IF k = 0 THEN 0 ELSE Draw(Sub(s, 2), k) + 1
      Share(j) == IF left <= 0 THEN left ELSE IF j = fav THEN left - left \div 3 ELSE left \div (2 * k)
  IN El(t, RAttrs(Def[t].attrs, Sub(s, 3), 1),
        [j \in 1..k |-> IF p[j] = "" THEN Tx(RText(Sub(s, 100 + j))) ELSE Grow(p[j], Sub(s, 200 + j), Share(j))])

\* an element straight into the document: in what is read as new provisions of a paragraph
NewProv == {NewProvTags[i] : i \in 1..Len(NewProvTags)}
Within(n) == El("Paragraph", << <<"Num", "1">> >>, <<El("AmendProvision", <<>>, <<El("NewProvision", <<>>, <<n>>)>>)>>)
Law(body) == El("Law", << <<"Era", "Reiwa">>, <<"Year", "2">>, <<"Num", "1">>, <<"LawType", "Act">>, <<"Lang", "ja">> >>,
                <<El("LawNum", <<>>, <<Tx("番号")>>), El("LawBody", <<>>, <<El("MainProvision", <<>>, <<body>>)>>)>>)
DocOf(s, f, top) == IF top = "" THEN Grow("Law", s, f) ELSE Law(Within(Grow(top, s, f)))

\* ---------------------------------------------------------------- surface
Comment == [m |-> "comment"]
PI == [m |-> "pi"]
Ws == Tx("\n  ")
ElementOnly(t) == t \in Tags /\ Def[t].k \in {"rec", "struct", "vec", "seqvar", "single", "soct"}
Half(x) == Len(x) \div 2
Between(s, t) == (IF Yes(Sub(s, 1), 5) THEN <<Comment>> ELSE <<>>) \o (IF Yes(Sub(s, 2), 9) THEN <<PI>> ELSE <<>>)
                 \o (IF ElementOnly(t) /\ ~Yes(Sub(s, 3), 3) THEN <<Ws>> ELSE <<>>)
NoisyText(s, x) ==
  IF Yes(s, 4) /\ Len(x) >= 2 /\ Ch(x, Half(x)) \notin {Ch("𠮷", 1), Ch("􏿽", 1)} /\ ~IsBlank(SubSeq(x, 1, Half(x))) /\ ~IsBlank(SubSeq(x, Half(x) + 1, Len(x)))
  THEN <<Tx(SubSeq(x, 1, Half(x))), Comment, [x |-> SubSeq(x, Half(x) + 1, Len(x)), cd |-> TRUE]>>
  ELSE IF Yes(Sub(s, 1), 4) THEN <<[x |-> x, cd |-> TRUE]>> ELSE <<Tx(x)>>
RECURSIVE Noisy(_, _), NoisyKids(_, _, _, _)
NoisyKids(t, c, s, i) ==
  IF i > Len(c) THEN Between(Sub(s, 0), t)
  ELSE Between(Sub(s, i), t) \o (IF IsTx(c[i]) THEN NoisyText(Sub(s, 300 + i), c[i].x) ELSE <<Noisy(c[i], Sub(s, 600 + i))>>) \o NoisyKids(t, c, s, i + 1)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Noisy(n, s) == El(n.t, IF Yes(s, 3) THEN Rev(n.a) ELSE n.a, NoisyKids(n.t, n.c, Sub(s, 2), 1))

\* ----------------------------------------------------------------- injuries
KidTags(t) ==
  LET d == Def[t] IN
  CASE d.k \in {"rec", "struct"} -> UNION {{d.slots[i].alts[j][1] : j \in 1..Len(d.slots[i].alts)} : i \in 1..Len(d.slots)}
    [] IsTextKind(d.k) -> {TextInline[i][1] : i \in 1..Len(TextInline)}
    [] d.k \in {"mixed", "any", "vec", "seqvar", "single"} -> {d.alts[i][1] : i \in 1..Len(d.alts)}
    [] d.k = "ruby" -> {"Rt"}
    [] d.k = "soct" -> {"Sentence", "Column", "Table"}
    [] OTHER -> {}
Others == TLCEval([t \in Tags |-> SetToSeq((Tags \ KidTags(t)) \cup {"Foo", "Subitem11", "sentence"})])
Broken(d) == CASE d.k = "usize" -> <<"x", "-1", "1.5", "一", "1 2", "18446744073709551616">>
               [] d.k = "bool" -> <<"", "yes", "1", "TRUE", "true ">>
               [] d.k = "artnum" -> <<"x", "1_x", "_", "1_", "_1", "1:", ":1", "1:2:3", "１">>
               [] StrictEnum(d.k) -> <<"", "x", EnumOf(d.k)[1][1] \o "x">>
               [] OTHER -> <<>>
Put(q, i, n) == SubSeq(q, 1, i) \o <<n>> \o SubSeq(q, i + 1, Len(q))
\* one element is given a child it may not have, or loses or spoils an attribute
Hurt(n, s) ==
  LET ds == Def[n.t].attrs
      foreign == LET t == One_(Sub(s, 1), Others[n.t]) IN
                 [n EXCEPT !.c = Put(n.c, Draw(Sub(s, 2), Len(n.c) + 1), IF t \in Tags /\ ~Yes(Sub(s, 3), 3) THEN Grow(t, Sub(s, 4), 3) ELSE El(t, <<>>, <<>>))]
      i == IF ds = <<>> THEN 0 ELSE Draw(Sub(s, 5), Len(ds)) + 1
      Mine(a) == a[1] # ds[i].n
      without == SelectSeq(n.a, Mine)
  IN IF i = 0 THEN foreign
     ELSE IF ds[i].p \in {"req", "reqopt", "blank"} /\ Yes(Sub(s, 6), 2) THEN [n EXCEPT !.a = without]
     ELSE IF Broken(ds[i]) # <<>> /\ Yes(Sub(s, 7), 2)
     THEN LET b == One_(Sub(s, 8), Broken(ds[i])) IN
          IF b = "" /\ ds[i].p \in {"blank", "blankopt"} THEN foreign ELSE [n EXCEPT !.a = Append(without, <<ds[i].n, b>>)]
     ELSE foreign
RECURSIVE Injure(_, _)
Injure(n, s) ==
  LET I == {j \in 1..Len(n.c) : IsEl(n.c[j])}
      q == SetToSeq(I)
  IN IF I = {} \/ Yes(Sub(s, 1), 6) THEN Hurt(n, Sub(s, 2))
     ELSE LET j == One_(Sub(s, 3), q) IN [n EXCEPT !.c[j] = Injure(n.c[j], Sub(s, 4))]

\* ------------------------------------------------------------ transitions
VARIABLES seed, fuel, noise, top, inj
vars == <<seed, fuel, noise, top, inj>>
Init == /\ seed \in {k \in From..(From + Count - 1) : k % Shards = Shard}
        /\ fuel \in Fuels /\ noise \in Noises /\ inj \in Injured
        /\ top \in IF Tops = {} THEN {""} ELSE Tops
Spec == Init /\ [][FALSE]_vars

\* -------------------------------------------------------------- properties
RECURSIVE TextsIn(_)
TextsIn(n) == IF IsTx(n) THEN <<n.x>>
              ELSE LET q == Kids(n) IN FlattenSeq([i \in 1..Len(q) |-> TextsIn(q[i])])
Say(what) == PrintT(<<"INVARIANT FAILS", what, seed, fuel, top>>) /\ FALSE
Seed0 == <<((seed % 32749) * 7919 + 13) % 32749, (((seed \div 3) % 20000) * 104729 + fuel * 31 + 7) % 32719>>
TagHash(t, i) == IF t = "" THEN 0 ELSE LET q == SetToSeq(Tags) IN CHOOSE j \in 1..Len(q) : q[j] = t
Holds ==
  LET s == Sub(Seed0, TagHash(top, 1))
      whole == TLCEval(DocOf(s, fuel, top))
      plain == IF inj THEN TLCEval(Injure(whole, Sub(s, 77))) ELSE whole
      d == IF noise THEN TLCEval(Noisy(plain, Sub(s, 9))) ELSE plain
      r == Parse(d)
      o == IF r.ok THEN Emit("Law", r.v) ELSE [none |-> 0]
      style == IF noise THEN One_(Sub(s, 10), <<"", "nodecl", "charref", "expand", "crlf", "bom", "tailcomment", "single", "deccharref", "headcomment", "tagspace", "declvar", "doctype", "mixed">>) ELSE ""
  IN /\ r.ok = ~inj \/ Say("Reads")
     /\ inj \/ (LET p == Parse(o) IN p.ok /\ p.v = r.v /\ Emit("Law", p.v) = o) \/ Say("RoundTrip")
     /\ (noise => r = Parse(plain)) \/ Say("SurfaceFree")
     /\ inj \/ TextsIn(o) = TextsIn(d) \/ Say("NothingLost")
     /\ OutFile = "" \/ CSVWrite("%1$s", <<ToJson([id |-> "drawn/" \o ToString(seed) \o "/" \o ToString(fuel) \o "/" \o top \o (IF noise THEN "/noise" ELSE "") \o (IF inj THEN "/injured" ELSE ""),
          focus |-> top, kind |-> IF inj THEN "err" ELSE "ok", style |-> style, tree |-> d, inj |-> IF inj THEN "drawn" ELSE "none",
          v |-> IF r.ok THEN r.v ELSE [none |-> 0], out |-> o])>>, OutFile)
=============================================================================
