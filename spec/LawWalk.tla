------------------------------- MODULE LawWalk -------------------------------
(***************************************************************************)
(* What is listed from whole laws: the articles with what encloses them,   *)
(* the groups of bare paragraphs (P20), the table of contents (P21) and    *)
(* the text with its place (P22), for documents drawn from the schema.     *)
(*                                                                         *)
(* WalkLaw and WalkText grow every small provision; here everything the    *)
(* schema allows is present at once: captions, deleted and hidden parts,   *)
(* equal numbers, notes, tables that hold provisions themselves, appendix  *)
(* tables between the articles, amendments quoting articles, and so on.    *)
(* The lists are computed on the value; the document, which the value was  *)
(* read from, is walked on its own and has to agree.                       *)
(***************************************************************************)
EXTENDS LawRandom

Levels == <<"Part", "Chapter", "Section", "Subsection", "Division">>
LevelOf(t) == \E i \in 1..5 : Levels[i] = t
Nowhere == [Part |-> "", Chapter |-> "", Section |-> "", Subsection |-> "", Division |-> ""]
TitleField == [Part |-> "part_title", Chapter |-> "chapter_title", Section |-> "section_title",
               Subsection |-> "subsection_title", Division |-> "division_title", Article |-> "title"]

\* ------------------------------------------------------------ plain text
RECURSIVE TitleText(_)
TitleText(q) == IF q = <<>> THEN "" ELSE
  LET w == Head(q) k == VarName(w) IN
  (CASE k = "Text" -> w[k]
     [] k = "Ruby" -> TitleText(w[k].text.contents)
     [] k \in {"Sup", "Sub"} -> w[k].text
     [] OTHER -> "") \o TitleText(Tail(q))
\* the text of inline content; what the notation of plain text has no form for (a table within a quotation) is not specified
Unsure == [ok |-> FALSE]
Sure(s) == [ok |-> TRUE, s |-> s]
Cat2(a, b) == IF a.ok /\ b.ok THEN Sure(a.s \o b.s) ELSE Unsure
RECURSIVE Inner(_)
Inner(q) == IF q = <<>> THEN Sure("") ELSE
  LET w == Head(q) k == VarName(w)
      here == CASE k \in {"String", "Text"} -> Sure(w[k])
                [] k = "Ruby" -> Sure(TitleText(w[k].text.contents))
                [] k = "Sup" -> Sure("^{" \o w[k].text \o "}")
                [] k = "Sub" -> Sure("_{" \o w[k].text \o "}")
                [] k = "Line" -> Sure("")
                [] k \in {"ArithFormula", "QuoteStruct"} -> Inner(w[k].contentes.contents)
                [] k = "Sentence" -> Inner(w[k].contents)
                [] OTHER -> Unsure
  IN Cat2(here, Inner(Tail(q)))
\* several pieces with a separator
RECURSIVE Pieces(_, _)
Pieces(q, sep) == IF q = <<>> THEN Sure("") ELSE IF Len(q) = 1 THEN q[1] ELSE Cat2(Cat2(q[1], Sure(sep)), Pieces(Tail(q), sep))
SentText(q) == Pieces([i \in 1..Len(q) |-> Inner(q[i].contents)], "")
CellPart(w) == LET k == VarName(w) IN
  CASE k = "String" -> Sure(w[k]) [] k = "Sentence" -> Inner(w[k].contents) [] k = "Column" -> SentText(w[k].sentence) [] OTHER -> Unsure
CellText(c) == Pieces([i \in 1..Len(c.contents) |-> CellPart(c.contents[i])], "")
TableText(t) ==
  Cat2(Cat2(Pieces([i \in 1..Len(t.table_header_row) |-> LET h == t.table_header_row[i].columns IN Pieces([j \in 1..Len(h) |-> Inner(h[j].contents)], "")], " "), Sure("\n")),
       Pieces([i \in 1..Len(t.table_row) |-> LET c == t.table_row[i].columns IN Pieces([j \in 1..Len(c) |-> CellText(c[j])], " ")], "\n"))
SoctText(w) == LET k == VarName(w) IN
  CASE k = "Sentence" -> SentText(w[k])
    [] k = "Column" -> LET q == FlattenSeq([i \in 1..Len(w[k]) |-> w[k][i].sentence]) IN Pieces([i \in 1..Len(q) |-> Inner(q[i].contents)], " ")
    [] OTHER -> TableText(w[k])
NumText(v) == IF Has(v, "num") THEN ArtNumStr(v.num) ELSE ""
RECURSIVE ItemTexts(_, _, _)
ItemTexts(v, p, items) ==
  LET here == Append(items, NumText(v))
  IN <<[p |-> p, items |-> here, text |-> SoctText(v.sentence)]>>
     \o (IF Has(v, "children") THEN FlattenSeq([i \in 1..Len(v.children) |-> ItemTexts(v.children[i], p, here)]) ELSE <<>>)
ParaTexts(q) == FlattenSeq([i \in 1..Len(q) |->
  LET v == q[i] p == ArtNumStr(v.num) IN
  <<[p |-> p, items |-> <<>>, text |-> SentText(v.sentence)]>> \o FlattenSeq([j \in 1..Len(v.children) |-> ItemTexts(v.children[j], p, <<>>)])])

\* ----------------------------------------------------------------- listing
RECURSIVE Under(_, _, _, _)
Under(k, v, at, path) ==
  IF k = "Article" THEN <<[k |-> k, path |-> path, at |-> at, num |-> ArtNumStr(v.num), title |-> TitleText(v.title.contents), v |-> v]>>
  ELSE IF LevelOf(k)
  THEN LET here == [at EXCEPT ![k] = ArtNumStr(v.num)] IN
       <<[k |-> k, path |-> path, at |-> here, num |-> "", title |-> TitleText(v[TitleField[k]].contents)]>>
       \o FlattenSeq([i \in 1..Len(v.children) |->
            IF k = "Division" THEN Under("Article", v.children[i], here, Append(path, <<StrOf(i - 1), "">>))
            ELSE LET w == v.children[i] kk == VarName(w) IN Under(kk, w[kk], here, Append(path, <<StrOf(i - 1), kk>>))])
  ELSE <<>>
Entries(v) == FlattenSeq([i \in 1..Len(v.children) |-> LET w == v.children[i] k == VarName(w) IN Under(k, w[k], Nowhere, <<<<StrOf(i - 1), k>>>>)])
\* bare paragraphs, in groups ended by what holds articles
RECURSIVE Groups(_, _)
Groups(q, acc) ==
  IF q = <<>> THEN <<acc>>
  ELSE LET k == VarName(Head(q)) IN
       IF k = "Paragraph" THEN Groups(Tail(q), Append(acc, Head(q)[k]))
       ELSE IF k = "Article" \/ LevelOf(k) THEN <<acc>> \o Groups(Tail(q), <<>>)
       ELSE Groups(Tail(q), acc)
Provision(v) ==
  LET es == Entries(v)
      A(e) == e.k = "Article"
      arts == SelectSeq(es, A)
  IN [arts |-> [i \in 1..Len(arts) |-> [path |-> arts[i].path, at |-> arts[i].at, text |-> ParaTexts(arts[i].v.paragraph)]],
      toc |-> [i \in 1..Len(es) |-> [at |-> es[i].at, article |-> es[i].num, title |-> es[i].title]],
      groups |-> LET g == Groups(v.children, <<>>) IN [i \in 1..Len(g) |-> [nums |-> [j \in 1..Len(g[i]) |-> ArtNumStr(g[i][j].num)], text |-> ParaTexts(g[i])]]]

\* ------------------------------------------- the document walked by itself
RECURSIVE Tour(_, _)
Tour(n, at) == LET q == ElKids(n) IN FlattenSeq([i \in 1..Len(q) |->
  IF q[i].t = "Article" THEN <<[at |-> at, article |-> AttrOf(q[i], "Num")]>>
  ELSE IF LevelOf(q[i].t) THEN LET here == [at EXCEPT ![q[i].t] = AttrOf(q[i], "Num")] IN <<[at |-> here, article |-> ""]>> \o Tour(q[i], here)
  ELSE <<>>])
Toured(n, p) == LET t == Tour(n, Nowhere) IN
  /\ t = [i \in 1..Len(p.toc) |-> [at |-> p.toc[i].at, article |-> p.toc[i].article]]
  /\ LET A(e) == e.article # "" IN [i \in 1..Len(p.arts) |-> p.arts[i].at] = LET x == SelectSeq(t, A) IN [i \in 1..Len(x) |-> x[i].at]
\* paragraphs, items and sub-items that count: those below one another, not those within tables and amendments
ItemTag(t) == t \in {"Paragraph", "Item", "Subitem1", "Subitem2", "Subitem3", "Subitem4", "Subitem5", "Subitem6", "Subitem7", "Subitem8", "Subitem9", "Subitem10"}
Sum(q) == FoldSeq(LAMBDA a, b : a + b, 0, q)
RECURSIVE Places(_)
Places(n) == LET q == ElKids(n) IN Sum([i \in 1..Len(q) |->
  IF ItemTag(q[i].t) THEN 1 + Places(q[i]) ELSE IF q[i].t = "Article" \/ LevelOf(q[i].t) THEN Places(q[i]) ELSE 0])
Counted(n, p) == Places(n) = Sum([i \in 1..Len(p.arts) |-> Len(p.arts[i].text)]) + Sum([i \in 1..Len(p.groups) |-> Len(p.groups[i].text)])

\* ---------------------------------------------------------------- the laws
\* provisions of many headings and articles, the articles being small; others as they come
Named(t, s) == LET i == Def[t].slots[1].alts[1][1] IN IF LevelOf(t) THEN <<Grow(i, s, 2)>> ELSE IF t = "SupplProvision" /\ ~Yes(s, 4) THEN <<Grow("SupplProvisionLabel", s, 1)>> ELSE <<>>
Kinds(t) == LET z == Def[t].slots[Len(Def[t].slots)] IN z.alts
RECURSIVE Outline(_, _, _)
Outline(t, s, f) ==
  IF ~(LevelOf(t) \/ t \in {"MainProvision", "SupplProvision"}) THEN Grow(t, s, One_(Sub(s, 9), <<-1, -1, 3, 8>>))
  ELSE LET n == IF f <= 0 THEN Draw(Sub(s, 1), 2) ELSE IF Yes(Sub(s, 2), 12) /\ f > 30 THEN 12 + Draw(Sub(s, 3), 30) ELSE One_(Sub(s, 4), <<1, 2, 2, 3, 3, 4, 5, 7>>)
           fav == Draw(Sub(s, 5), n + 1)
       IN El(t, RAttrs(Def[t].attrs, Sub(s, 6), 1),
             Named(t, Sub(s, 7)) \o [j \in 1..n |-> Outline(One_(Sub(s, 20 + j), Kinds(t))[1], Sub(s, 200 + j), IF j = fav THEN f - f \div 3 - n ELSE (f \div (2 * n)) - 2)])
Provided(t, s, f) == IF Yes(Sub(s, 8), 4) THEN Grow(t, s, f) ELSE Outline(t, s, f)
WalkDoc(s, f) ==
  LET main == Provided("MainProvision", Sub(s, 1), f)
      k == Draw(Sub(s, 2), 3)
      suppl == [i \in 1..k |-> Provided("SupplProvision", Sub(s, 10 + i), f \div 3)]
  IN El("Law", << <<"Era", "Reiwa">>, <<"Year", "2">>, <<"Num", "1">>, <<"LawType", "Act">>, <<"Lang", "ja">> >>,
        <<El("LawNum", <<>>, <<Tx("番号")>>), El("LawBody", <<>>, <<main>> \o suppl)>>)
Walks ==
  LET d == TLCEval(IF top = "" THEN WalkDoc(Sub(Seed0, 5), fuel) ELSE LET q == Sub(Seed0, 5 + TagHash(top, 1)) IN Law(IF LevelOf(top) THEN Outline(top, q, fuel) ELSE Grow(top, q, fuel)))
      r == Parse(d)
      b == r.v.law_body
      vs == <<b.main_provision>> \o b.suppl_provision
      IsProv(n) == n.t \in {"MainProvision", "SupplProvision"}
      ns == SelectSeq(ElKids(d.c[2]), IsProv)
      ps == TLCEval([i \in 1..Len(vs) |-> Provision(vs[i])])
  IN /\ r.ok \/ Say("Reads")
     /\ (Len(ns) = Len(ps) /\ \A i \in 1..Len(ps) : Toured(ns[i], ps[i])) \/ Say("Toured")
     /\ (\A i \in 1..Len(ps) : Counted(ns[i], ps[i])) \/ Say("Counted")
     /\ OutFile = "" \/ CSVWrite("%1$s", <<ToJson([id |-> "walk/" \o ToString(seed) \o "/" \o ToString(fuel) \o "/" \o top, focus |-> top, tree |-> d, v |-> r.v, provs |-> ps])>>, OutFile)
=============================================================================
