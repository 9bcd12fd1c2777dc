------------------------------- MODULE LawDocs -------------------------------
(***************************************************************************)
(* A document builder over the schema, as a state machine.                 *)
(*                                                                         *)
(* A behaviour chooses a focus element, then grows it step by step: it     *)
(* sets attributes, appends children (bare or furnished), injures it (one  *)
(* violation of the schema), or disturbs its surface syntax.  Every state  *)
(* is a complete document: the focus wrapped in the shortest chain of      *)
(* enclosing elements up to Law.  The invariants relate the document to    *)
(* Parse and Emit; Dump hands each document, with what the library must do *)
(* with it, to the conformance harness.                                    *)
(***************************************************************************)
EXTENDS LawSchema, Json, CSV, Integers

CONSTANTS MaxKids,        \* how many children may be appended to the focus
          MaxAttrs,       \* how many attributes may be set on the focus
          KidLevels,      \* how furnished an appended child may be
          Injuries,       \* TRUE: also break the schema in every single way
          Surface,        \* TRUE: also disturb the surface syntax
          Texts,          \* TRUE: texts range over TextSamples, not labels
          Copies,         \* how often an appended child stands there, alike ({1} = once)
          FocusLevels,       \* how furnished the rest of the focus is
          FocusTags,      \* elements to focus on ({} = all)
          Foreign,        \* elements to put where they do not belong ({"*"} = all)
          Shard, Shards,  \* this run's share of the focus elements
          OutFile         \* where Dump writes ("" = nowhere)

VARIABLES focus,      \* focus element
          copies, \* how often each appended child stands there
          lvl,    \* how furnished the rest of the focus is (0 bare)
          attrsSet,    \* sequence of <<attribute index, text>>
          kidsSet,   \* sequence of <<slot, alternative, level>>  (alternative 0: text)
          inj,    \* the injury, or "none"
          sur     \* the surface disturbance, or "none"
vars == <<focus, copies, lvl, attrsSet, kidsSet, inj, sur>>

\* ------------------------------------------------------- generating content
RECURSIVE LblOf(_, _)
LblOf(p, i) == IF i > Len(p) THEN "" ELSE "." \o StrOf(p[i]) \o LblOf(p, i + 1)
Lbl(p) == LblOf(p, 1)
Key(p) == IF Len(p) = 0 THEN 1
          ELSE IF Len(p) = 1 THEN p[1]
          ELSE (p[Len(p) - 1] % 100) * 1000 + p[Len(p)]

AttrSample(d, i, p, l) ==
  CASE d.k = "str" -> "属" \o StrOf(i) \o Lbl(p)
    [] d.k = "usize" -> StrOf(Key(p) + i)
    [] d.k = "bool" -> "true"
    [] d.k \in {"artnum", "artnumopt"} ->
         IF l = 0 THEN StrOf(Key(p))
         ELSE StrOf(Key(p)) \o "_" \o StrOf(Key(p) + i)
    [] OTHER -> LET e == EnumOf(d.k) IN e[((Key(p) + i) % Len(e)) + 1][1]
IsReq(d) == d.p \in {"req", "reqopt", "blank"}
GenAttrs(d, p, l) ==
  LET ix == [i \in 1..Len(d.attrs) |-> i]
      Want(i) == IsReq(d.attrs[i]) \/ l >= 1
      q == SelectSeq(ix, Want)
  IN [j \in 1..Len(q) |-> <<d.attrs[q[j]].n, AttrSample(d.attrs[q[j]], q[j], p, l)>>]

IsTextKind(k) == k \in {"text", "twm", "textin"}
AltsOf(d) == IF IsTextKind(d.k) THEN TextInline ELSE d.alts

RECURSIVE Gen(_, _, _), GenKids(_, _, _), GenSlots(_, _, _, _), GenAlts(_, _, _, _), GenMixed(_, _, _, _)
\* one of each alternative, then the first once more
GenAlts(alts, p, l, i) ==
  IF i > Len(alts) + 1 THEN <<>>
  ELSE <<Gen(alts[IF i > Len(alts) THEN 1 ELSE i][1], Append(p, i), l)>> \o GenAlts(alts, p, l, i + 1)
GenMixed(alts, p, l, i) ==
  IF i > Len(alts) + 1 THEN <<>>
  ELSE <<Gen(alts[IF i > Len(alts) THEN 1 ELSE i][1], Append(p, i), l),
         Tx("文" \o Lbl(Append(p, i)))>> \o GenMixed(alts, p, l, i + 1)
GenSlots(slots, p, l, i) ==
  IF i > Len(slots) THEN <<>>
  ELSE LET s == slots[i] t == s.alts[1][1] q == Append(p, i) IN
    (CASE s.card = "one" -> <<Gen(t, q, IF l > 0 THEN l - 1 ELSE 0)>>
       [] s.card # "one" /\ l = 0 -> <<>>
       [] s.card \in {"opt", "text0", "textne", "vec0"} /\ l > 0 -> <<Gen(t, q, l - 1)>>
       [] s.card \in {"many", "flat"} /\ l > 0 -> GenAlts(s.alts, q, l - 1, 1))
    \o GenSlots(slots, p, l, i + 1)
GenKids(t, p, l) ==
  LET d == Def[t] IN
  CASE d.k \in {"rec", "struct"} -> GenSlots(d.slots, p, l, 1)
    [] IsTextKind(d.k) \/ d.k \in {"mixed", "any"} ->
         <<Tx("文" \o Lbl(p))>> \o (IF l = 0 THEN <<>> ELSE GenMixed(AltsOf(d), p, l - 1, 1))
    [] d.k \in {"str", "supsub"} -> <<Tx("字" \o Lbl(p))>>
    [] d.k = "ruby" -> <<Tx("漢" \o Lbl(p)), El("Rt", <<>>, <<Tx("かん" \o Lbl(p))>>)>>
    [] d.k \in {"vec", "seqvar"} -> IF l = 0 THEN <<>> ELSE GenAlts(d.alts, p, l - 1, 1)
    [] d.k = "single" -> <<Gen(d.alts[1][1], Append(p, 1), IF l > 0 THEN l - 1 ELSE 0)>>
    [] d.k = "soct" ->
         LET which == IF l = 0 THEN 0 ELSE Key(p) % 3
             t2 == CASE which = 0 -> "Sentence" [] which = 1 -> "Column" [] which = 2 -> "Table"
             l2 == IF l > 0 THEN l - 1 ELSE 0
         IN IF which = 2 \/ l = 0 THEN <<Gen(t2, Append(p, 1), l2)>>
            ELSE <<Gen(t2, Append(p, 1), l2), Gen(t2, Append(p, 2), l2)>>
Gen(t, p, l) == El(t, GenAttrs(Def[t], p, l), GenKids(t, p, l))

\* --------------------------------------------------- slots seen uniformly
\* For the builder every element has slots; alternative 0 of a mixed slot is text.
Pseudo(card, alts) == <<Slot("", card, alts)>>
SoctAlts == Same(<<"Sentence", "Column", "Table">>)
BSlots(t) ==
  LET d == Def[t] IN
  CASE d.k \in {"rec", "struct"} -> d.slots
    [] IsTextKind(d.k) \/ d.k \in {"mixed", "any"} -> Pseudo("mixed", AltsOf(d))
    [] d.k \in {"str", "supsub"} -> Pseudo("mixed", <<>>)
    [] d.k = "ruby" -> <<Slot("", "mixed", <<>>), Slot("", "one", << <<"Rt", "">> >>)>>
    [] d.k \in {"vec", "seqvar"} -> Pseudo("many", d.alts)
    [] d.k = "single" -> Pseudo("one", d.alts)
    [] d.k = "soct" -> Pseudo("soct", SoctAlts)
BS == TLCEval([t \in Tags |-> BSlots(t)])
KidTags(t) == UNION {{BS[t][i].alts[j][1] : j \in 1..Len(BS[t][i].alts)} : i \in 1..Len(BS[t])}
KT == TLCEval([t \in Tags |-> KidTags(t)])

\* children of an element from picks <<slot, node>> (in order within a slot)
RECURSIVE Arrange(_, _, _, _)
Arrange(t, picks, p, i) ==
  IF i > Len(BS[t]) THEN <<>>
  ELSE LET s == BS[t][i]
           Here(k) == k[1] = i
           mine == SelectSeq(picks, Here)
           ns == [j \in 1..Len(mine) |-> mine[j][2]]
           need == s.card \in {"one", "soct"} /\ mine = <<>>
       IN (IF need THEN <<Gen(s.alts[1][1], p \o <<90 + i>>, 0)>> ELSE ns) \o Arrange(t, picks, p, i + 1)

\* ---------------------------------------------------------- enclosing chain
RECURSIVE LevelsFrom(_, _)
LevelsFrom(ls, seen) ==
  LET nxt == (UNION {KT[t] : t \in ls[Len(ls)]}) \ seen
  IN IF nxt = {} THEN ls ELSE LevelsFrom(Append(ls, nxt), seen \cup nxt)
Levels == LevelsFrom(<<{"Law"}>>, {"Law"})
DepthOf == [t \in Tags |-> CHOOSE i \in 1..Len(Levels) : t \in Levels[i]]
ParentOf == [t \in Tags \ {"Law"} |-> CHOOSE u \in Levels[DepthOf[t] - 1] : t \in KT[u]]
SlotFor(u, t) == CHOOSE i \in 1..Len(BS[u]) : \E j \in 1..Len(BS[u][i].alts) : BS[u][i].alts[j][1] = t
RECURSIVE Wrap(_)
Wrap(n) ==
  IF n.t = "Law" \/ n.t \notin Tags THEN n
  ELSE LET u == ParentOf[n.t] i == SlotFor(u, n.t) IN
       Wrap(El(u, GenAttrs(Def[u], <<700>>, 0), Arrange(u, << <<i, n>> >>, <<70 + DepthOf[u]>>, 1)))

\* ------------------------------------------------------------ text samples
TextSamples == <<
  "本文", "<b>&amp;\"'", " 前 後 ", "　全　角　", "a\tb", "一\n二", "𠮷野家👪", "]]>", "&#x41;", "--x--", "%",
  "a", "1", "。", "e\\n", "\"", "'", "<", ">", "&", "  　x", "x\n", "\nx", "\tx\t", "a<!-- 注 -->b", "<?x y?>", "<![CDATA[x]]>", "<Sup>2</Sup>", "]]", "&#0;&bad;",
  "甲　　乙", "甲  乙\t\t丙\n\n丁", "（（ああ））。。、、　　",
  \* (these stand for blocks of characters: see harness/src/util.rs)
  "", "", "" >>
AttrTexts == << "値", "", " ", " a  b ", "<&>\"'", "　全", "𠮷", "a\tb", "x\ny", "&lt;", "", "", "" >>

\* the acceptable texts tried for an attribute
GoodVals(d) ==
  CASE d.k = "str" -> {AttrTexts[i] : i \in 1..Len(AttrTexts)}
    [] d.k = "usize" -> {"0", "1", "12", "007", "305", "999999999"}
       \cup (IF d.p = "blankopt" THEN {""} ELSE {})
    [] d.k = "bool" -> {"true", "false"}
    [] d.k \in {"artnum", "artnumopt"} ->
         {"0", "1", "10", "2_1", "38_3_2", "1:2", "1_2:3", "1:2_3", "13_4:15_6", "20:22_2_3", "1000"}
         \cup (IF d.p = "blank" THEN {""} ELSE {})
         \cup (IF d.k = "artnumopt" THEN {"", "abc", "1_x"} ELSE {})
    [] OTHER -> {EnumOf(d.k)[i][1] : i \in 1..Len(EnumOf(d.k))}
\* texts outside the domain of the attribute
BadVals(d) ==
  CASE d.k = "usize" -> {"x", "-1", "1.5", "一", "1 2", "1 ", "１", "0x1", "日本"} \cup (IF d.p = "blankopt" THEN {} ELSE {""})
    [] d.k = "bool" -> {"", "yes", "1", "TRUE", "True", "true ", "日本"}
    [] d.k = "artnum" -> {"x", "1_x", "_", "1_", "_1", "1:", ":1", "1.2", "一", "1__2", "１", " 1", "1 ", "-1", "1:2:3", "1_-2", "日_本"}
         \cup (IF d.p = "blank" THEN {} ELSE {""})
    [] StrictEnum(d.k) -> {"", "x", "日本"} \cup {EnumOf(d.k)[1][1] \o "x", EnumOf(d.k)[1][1] \o " ", SubSeq(EnumOf(d.k)[1][1], 2, Len(EnumOf(d.k)[1][1]))}
    [] OTHER -> {}

\* ----------------------------------------------------------- the document
NoInj == [k |-> "none"]
FA == Def[focus].attrs
AttrPicked(i) == \E j \in 1..Len(attrsSet) : attrsSet[j][1] = i
AttrPick(i) == attrsSet[CHOOSE j \in 1..Len(attrsSet) : attrsSet[j][1] = i][2]
FocusAttrs ==
  LET ix == [i \in 1..Len(FA) |-> i]
      Want(i) == /\ AttrPicked(i) \/ IsReq(FA[i]) \/ lvl >= 1
                 /\ ~(inj.k = "dropattr" /\ inj.i = i)
      q == SelectSeq(ix, Want)
      Val(i) == IF inj.k = "badattr" /\ inj.i = i THEN inj.v
                ELSE IF AttrPicked(i) THEN AttrPick(i) ELSE AttrSample(FA[i], i, <<1>>, lvl)
      all == [j \in 1..Len(q) |-> <<FA[q[j]].n, Val(q[j])>>]
  IN IF inj.k = "badattr" /\ ~\E j \in 1..Len(q) : q[j] = inj.i
     THEN Append(all, <<FA[inj.i].n, inj.v>>) ELSE all

PickNode(j) ==
  LET k == kidsSet[j] s == BS[focus][k[1]] IN
  IF k[2] = 0 THEN Tx(IF Texts THEN TextSamples[k[3] + 1] ELSE "本文" \o StrOf(j))
  ELSE Gen(s.alts[k[2]][1], <<j>>, k[3])
BodyKids ==
  IF kidsSet = <<>> /\ lvl >= 1 THEN GenKids(focus, <<1>>, lvl)
  ELSE Arrange(focus, [h \in 1..(copies * Len(kidsSet)) |-> LET j == ((h - 1) \div copies) + 1 IN <<kidsSet[j][1], PickNode(j)>>], <<50>>, 1)
PutAt(q, i, n) == SubSeq(q, 1, i) \o <<n>> \o SubSeq(q, i + 1, Len(q))
RemoveTag(q, t) == LET K(m) == ~IsEl(m) \/ m.t # t IN SelectSeq(q, K)
RECURSIVE Twice(_, _)
Twice(q, t) == IF q = <<>> THEN <<>>
               ELSE LET n == Head(q) IN
                    (IF IsEl(n) /\ n.t = t THEN <<n, n>> ELSE <<n>>) \o Twice(Tail(q), t)
FocusKids ==
  CASE inj.k = "foreign" -> PutAt(BodyKids, IF inj.at = 0 THEN 0 ELSE Len(BodyKids), El(inj.t, <<>>, <<>>))
    [] inj.k = "dropkid" -> RemoveTag(BodyKids, BS[focus][inj.i].alts[1][1])
    [] inj.k = "repeat" -> Twice(BodyKids, inj.t)
    [] sur.k = "edge" -> [i \in 1..Len(BodyKids) |-> IF IsTx(BodyKids[i]) THEN Tx(" " \o BodyKids[i].x) ELSE BodyKids[i]]
    [] OTHER -> BodyKids
\* surface: insert nodes that carry no information, or respell
ElementOnly(t) == Def[t].k \in {"rec", "struct", "vec", "seqvar", "single", "soct"}
MarkCd(n) == IF IsTx(n) THEN [x |-> n.x, cd |-> TRUE] ELSE n
RECURSIVE Spread(_, _)
Spread(q, n) == IF q = <<>> THEN <<n>> ELSE <<n, Head(q)>> \o Spread(Tail(q), n)
Half(s) == Len(s) \div 2
RECURSIVE SplitTx(_, _)
SplitTx(q, m) ==
  IF q = <<>> THEN <<>>
  ELSE LET n == Head(q) IN
    (IF IsTx(n) /\ Len(n.x) >= 2
     THEN <<Tx(SubSeq(n.x, 1, Half(n.x)))>> \o m \o <<Tx(SubSeq(n.x, Half(n.x) + 1, Len(n.x)))>>
     ELSE <<n>>) \o SplitTx(Tail(q), m)
RECURSIVE EdgeTx(_)
\* a blank at the beginning of a text, parted from the rest of it
EdgeTx(q) == IF q = <<>> THEN <<>>
             ELSE (IF ~IsTx(Head(q)) THEN <<Head(q)>>
                   ELSE LET x == SubSeq(Head(q).x, 2, Len(Head(q).x)) IN
                        IF sur.by = "comment" THEN <<Tx(" "), [m |-> "comment"], Tx(x)>> ELSE <<Tx(" "), [x |-> x, cd |-> TRUE]>>) \o EdgeTx(Tail(q))
Disturbed(q) ==
  CASE sur.k = "insert" -> PutAt(q, sur.at, sur.n)
    [] sur.k = "spread" -> Spread(q, sur.n)
    [] sur.k = "cdata" -> [i \in 1..Len(q) |-> MarkCd(q[i])]
    [] sur.k = "split" -> SplitTx(q, sur.n)
    [] sur.k = "edge" -> EdgeTx(q)
    [] OTHER -> q
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
FocusNode == El(focus, IF sur.k = "revattr" THEN Rev(FocusAttrs) ELSE FocusAttrs, Disturbed(FocusKids))
Plain == El(focus, FocusAttrs, FocusKids)
Doc == Wrap(FocusNode)

\* ------------------------------------------------------------ transitions
None == [k |-> "none"]
TagList == TLCEval(SetToSeq(Tags))
\* the elements this run enumerates (the driver splits the work over Shards runs)
Foci == IF FocusTags # {} THEN FocusTags
        ELSE {TagList[i] : i \in {j \in 1..Len(TagList) : j % Shards = Shard}}
Init == /\ focus \in Foci /\ lvl \in FocusLevels
        /\ attrsSet = <<>> /\ kidsSet = <<>> /\ inj = NoInj /\ sur = None
        /\ copies \in Copies /\ (copies > 1 => lvl = 0)

Calm == inj = NoInj /\ sur = None
SetAttr ==
  /\ Calm /\ kidsSet = <<>> /\ lvl = 0 /\ copies = 1 /\ Len(attrsSet) < MaxAttrs
  /\ \E i \in 1..Len(FA) :
       /\ \A j \in 1..Len(attrsSet) : attrsSet[j][1] < i
       /\ \E v \in GoodVals(FA[i]) : attrsSet' = Append(attrsSet, <<i, v>>)
  /\ UNCHANGED <<focus, copies, lvl, kidsSet, inj, sur>>

CountIn(i) == Cardinality({j \in 1..Len(kidsSet) : kidsSet[j][1] = i})
CanAdd(i, a) ==
  LET s == BS[focus][i] IN
  CASE s.card \in {"one", "opt", "text0", "textne", "vec0"} -> CountIn(i) = 0
    [] s.card \in {"many", "flat", "mixed"} -> TRUE
    [] s.card = "soct" -> \A j \in 1..Len(kidsSet) : kidsSet[j][2] = a /\ s.alts[a][1] # "Table"
AddKid ==
  /\ Calm /\ attrsSet = <<>> /\ lvl = 0 /\ Len(kidsSet) < MaxKids
  /\ \E i \in 1..Len(BS[focus]) :
       /\ \A j \in 1..Len(kidsSet) : kidsSet[j][1] <= i          \* canonical slot order
       /\ \/ \E a \in 1..Len(BS[focus][i].alts) : \E l \in KidLevels :
               /\ CanAdd(i, a) /\ kidsSet' = Append(kidsSet, <<i, a, l>>)
               /\ copies > 1 => /\ BS[focus][i].card \in {"many", "flat", "mixed", "soct"} /\ BS[focus][i].alts[a][1] # "Rt"
                                /\ BS[focus][i].card = "soct" => BS[focus][i].alts[a][1] # "Table"
          \/ /\ BS[focus][i].card = "mixed" /\ copies = 1
             /\ ~Texts => ~\E j \in 1..Len(kidsSet) : j = Len(kidsSet) /\ kidsSet[j][2] = 0
             /\ \E x \in (IF Texts THEN 0..(Len(TextSamples) - 1) ELSE {0}) :
                  kidsSet' = Append(kidsSet, <<i, 0, x>>)
  /\ UNCHANGED <<focus, copies, lvl, attrsSet, inj, sur>>

Stem(t) == LET q == SelectSeq(Chars(t), LAMBDA x : ~IsDigit(x)) IN Concat(q)
Misspelt(t) == (IF t = "" THEN {} ELSE
  {SubSeq(t, 1, Len(t) - 1), SubSeq(t, 2, Len(t)), t \o "s", t \o "1", t \o "11", Stem(t) \o "0", Stem(t) \o "Title", t \o "Title", t \o "条", "条" \o t, Stem(t), Stem(t) \o "日本Title", t \o "-1"}) \ {""}
Injure ==
  /\ Injuries /\ Calm /\ Len(attrsSet) = 0 /\ Len(kidsSet) = 0
  /\ \/ \E i \in 1..Len(FA) : IsReq(FA[i]) /\ inj' = [k |-> "dropattr", i |-> i]
     \/ \E i \in 1..Len(FA) : \E v \in BadVals(FA[i]) : inj' = [k |-> "badattr", i |-> i, v |-> v]
     \/ \E i \in 1..Len(BS[focus]) : /\ BS[focus][i].card = "one" \/ (BS[focus][i].card = "soct" /\ lvl = 0)
                                 /\ focus # "Ruby"
                                 /\ inj' = [k |-> "dropkid", i |-> i]
     \/ /\ lvl = 1
        /\ \E i \in 1..Len(BS[focus]) : LET s == BS[focus][i] IN
             /\ s.card \in {"one", "opt", "text0", "textne", "vec0"} \/ Def[focus].k = "single"
             /\ \E j \in 1..Len(BodyKids) : IsEl(BodyKids[j]) /\ BodyKids[j].t = s.alts[1][1]
             /\ focus # "Ruby"
             /\ inj' = [k |-> "repeat", t |-> s.alts[1][1]]
     \/ \E t \in (IF "*" \in Foreign THEN Tags ELSE Foreign) \ KT[focus] : \E a \in {0, 1} :
          inj' = [k |-> "foreign", t |-> t, at |-> a]
     \* elements nobody knows, spelt like ones that belong here
     \/ "~" \in Foreign /\ \E i \in 1..Len(BS[focus]) : \E j \in 1..Len(BS[focus][i].alts) : \E t \in Misspelt(BS[focus][i].alts[j][1]) \ (KT[focus] \cup Tags) :
          inj' = [k |-> "foreign", t |-> t, at |-> 1]
  /\ UNCHANGED <<focus, copies, lvl, attrsSet, kidsSet, sur>>

Comment == [m |-> "comment"]
PI == [m |-> "pi"]
Ws == Tx("\n  ")
Disturb ==
  /\ Surface /\ Calm
  /\ \/ \E a \in 0..Len(FocusKids) : \E n \in {Comment, PI} : sur' = [k |-> "insert", at |-> a, n |-> n]
     \/ \E n \in {Comment, PI} : sur' = [k |-> "spread", n |-> n]
     \/ ElementOnly(focus) /\ \E n \in {Ws, Tx("\r\n\t"), Tx("\t \n\n  ")} : sur' = [k |-> "spread", n |-> n]
     \/ (\E i \in 1..Len(FocusKids) : IsTx(FocusKids[i])) /\ sur' = [k |-> "cdata"]
     \/ (\E i \in 1..Len(FocusKids) : IsTx(FocusKids[i])) /\
          \E m \in {<<Comment>>, <<PI>>, <<Comment, PI>>} : sur' = [k |-> "split", n |-> m]
     \/ lvl = 1 /\ (\E i \in 1..Len(FocusKids) : IsTx(FocusKids[i]) /\ ~IsBlank(FocusKids[i].x)) /\ \E b \in {"comment", "cdata"} : sur' = [k |-> "edge", by |-> b]
     \/ Len(FocusAttrs) > 1 /\ sur' = [k |-> "revattr"]
     \/ \E s \in {"nodecl", "charref", "deccharref", "expand", "crlf", "bom", "tailcomment", "headcomment", "single", "tagspace", "declvar", "doctype", "mixed"} : sur' = [k |-> "style", s |-> s]
  /\ UNCHANGED <<focus, copies, lvl, attrsSet, kidsSet, inj>>

Next == SetAttr \/ AddKid \/ Injure \/ Disturb
Spec == Init /\ [][Next]_vars

\* -------------------------------------------------------------- properties
RECURSIVE TextsIn(_)
TextsIn(n) == IF IsTx(n) THEN <<n.x>>
              ELSE LET q == Kids(n) IN FlattenSeq([i \in 1..Len(q) |-> TextsIn(q[i])])
\* P01/P04: whole documents are read, injured ones are refused
Reads(r) == inj = NoInj <=> r.ok
\* P03: writing is inverse to reading
RoundTrip(r, o) == r.ok => LET p == Parse(o) IN p.ok /\ p.v = r.v /\ Emit("Law", p.v) = o
\* P07: the surface carries no information
SurfaceFree(r) == sur # None => r = Parse(Wrap(Plain))
\* P01: nothing of the document is lost -- its texts all survive, in order
NothingLost(r, d, o) == r.ok => TextsIn(o) = TextsIn(d)

Style == IF sur.k = "style" THEN sur.s ELSE ""
Label == IF sur.k = "edge" THEN "edge " \o sur.by \o " " \o focus ELSE IF inj.k = "repeat" THEN "repeat " \o focus \o "/" \o inj.t ELSE focus \o (IF copies = 1 THEN "" ELSE "*" \o ToString(copies)) \o "/" \o ToString(lvl) \o "/" \o ToString(attrsSet) \o "/" \o ToString(kidsSet) \o "/" \o ToString(inj) \o "/" \o ToString(sur)
Case(r, d, o) ==
  [id |-> Label, focus |-> focus, kind |-> IF r.ok THEN "ok" ELSE "err", style |-> Style, tree |-> d,
   inj |-> inj.k,
   v |-> IF r.ok THEN r.v ELSE [none |-> 0],
   out |-> o]
Dump(r, d, o) == OutFile = "" \/ CSVWrite("%1$s", <<ToJson(Case(r, d, o))>>, OutFile)
Say(what) == PrintT(<<"INVARIANT FAILS", what, Label>>) /\ FALSE

\* all properties of one document, computing its reading once
Holds ==
  LET d == Doc
      r == Parse(d)
      o == IF r.ok THEN Emit("Law", r.v) ELSE [none |-> 0]
  IN /\ Reads(r) \/ Say("Reads")
     /\ RoundTrip(r, o) \/ Say("RoundTrip")
     /\ SurfaceFree(r) \/ Say("SurfaceFree")
     /\ NothingLost(r, d, o) \/ Say("NothingLost")
     /\ Dump(r, d, o)
=============================================================================
