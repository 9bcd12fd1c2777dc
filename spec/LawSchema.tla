------------------------------ MODULE LawSchema ------------------------------
(***************************************************************************)
(* The standard XML schema for Japanese law as a data table (Def), and the *)
(* two transition functions of the library over it:                        *)
(*    Parse(node)   : XML tree  -> abstract law value, or an error         *)
(*    Emit(tag, v)  : abstract law value -> canonical XML tree             *)
(*                                                                         *)
(* XML tree node:  [t |-> tag, a |-> <<<<name, value>>, ...>>, c |-> nodes] *)
(*                 [x |-> "character data"]                                *)
(*                 [m |-> "comment" or "pi"]      (carries no information) *)
(* Abstract value: records/sequences shaped as the library's own serde     *)
(* serialisation; an absent optional field is an absent record key.        *)
(***************************************************************************)
EXTENDS Str, FiniteSets, SequencesExt

Ok(v)  == [ok |-> TRUE, v |-> v]
Err(m) == [ok |-> FALSE, e |-> m]

IsEl(n) == "t" \in DOMAIN n
IsTx(n) == "x" \in DOMAIN n
El(t, a, c) == [t |-> t, a |-> a, c |-> c]
Tx(s) == [x |-> s]

\* ------------------------------------------------------------ table syntax
\* attribute: n name, f field, k kind, p policy, d default value
\*   policy: req | opt (absent key) | def (absent = default, written only when
\*           different) | defa (absent = default, always written)
Attr(n, f, k, p, d) == [n |-> n, f |-> f, k |-> k, p |-> p, d |-> d]
Req(n, f, k)      == Attr(n, f, k, "req", "")
Opt(n, f, k)      == Attr(n, f, k, "opt", "")
Dfl(n, f, k, d)   == Attr(n, f, k, "def", d)
DflA(n, f, k, d)  == Attr(n, f, k, "defa", d)

\* slot: f field, card, alts = <<<<tag, variant>>, ...>>  (variant "" = bare)
\*   card: one (required) | opt | many | text0 (absent = empty text, always
\*         written) | textne (absent = empty text, written when non-empty)
\*         | vec0 (absent = <<>>, always written) | flat (concatenated lists)
Slot(f, card, alts) == [f |-> f, card |-> card, alts |-> alts]
One(f, t)  == Slot(f, "one",  << <<t, "">> >>)
May(f, t)  == Slot(f, "opt",  << <<t, "">> >>)
Many(f, t) == Slot(f, "many", << <<t, "">> >>)
Same(ts) == [i \in 1..Len(ts) |-> <<ts[i], ts[i]>>]
AnyOf(f, ts) == Slot(f, "many", Same(ts))

D(k, attrs, slots) ==
  [k |-> k, attrs |-> attrs, slots |-> slots, alts |-> <<>>, first |-> ""]
Rec(attrs, slots) == D("rec", attrs, slots)
RecT(attrs, slots, title) == [D("rec", attrs, slots) EXCEPT !.first = title]
Mixed(attrs, alts) == [D("mixed", attrs, <<>>) EXCEPT !.alts = alts]
AnyContents(attrs, alts) == [D("any", attrs, <<>>) EXCEPT !.alts = alts]

TextD == D("text", <<>>, <<>>)                      \* Text
TwmD  == D("twm", <<Dfl("WritingMode", "writing_mode", "wmode", "Vertical")>>, <<>>)
TextIn(attrs) == D("textin", attrs, <<>>)           \* record with a field "text"

EnumOf(k) == CASE k = "era" -> << <<"Meiji","Meiji">>, <<"Taisho","Taisho">>, <<"Showa","Showa">>,
                                  <<"Heisei","Heisei">>, <<"Reiwa","Reiwa">> >>
  [] k = "lawtype" -> << <<"Constitution","Constitution">>, <<"Act","Act">>, <<"CabinetOrder","CabinetOrder">>,
                         <<"ImperialOrder","ImperialOrder">>, <<"MinisterialOrdinance","MinisterialOrdinance">>,
                         <<"Rule","Rule">>, <<"Misc","Misc">> >>
  [] k = "lang" -> << <<"ja","Ja">>, <<"en","En">> >>
  [] k = "wmode" -> << <<"vertical","Vertical">>, <<"horizontal","Horizontal">> >>
  [] k = "func" -> << <<"main","Main">>, <<"proviso","Proviso">> >>
  [] k = "indent" -> << <<"Paragraph","Paragraph">>, <<"Item","Item">>, <<"Subitem1","Subitem1">>,
                        <<"Subitem2","Subitem2">>, <<"Subitem3","Subitem3">>, <<"Subitem4","Subitem4">>,
                        <<"Subitem5","Subitem5">>, <<"Subitem6","Subitem6">>, <<"Subitem7","Subitem7">>,
                        <<"Subitem8","Subitem8">>, <<"Subitem9","Subitem9">>, <<"Subitem10","Subitem10">> >>
  [] k = "line" -> << <<"dotted","Dotted">>, <<"double","Double">>, <<"none","None">>, <<"solid","Solid">> >>
  [] k = "align" -> << <<"left","Left">>, <<"center","Center">>, <<"right","Right">>, <<"justify","Justify">> >>
  [] k = "valign" -> << <<"top","Top">>, <<"middle","Middle">>, <<"bottom","Bottom">> >>
  [] k = "stype" -> << <<"New","New">>, <<"Amend","Amend">> >>
IsEnum(k) == k \in {"era","lawtype","lang","wmode","func","indent","line","align","valign","stype"}
\* Enumerated attributes whose unknown values are refused (the others are
\* layout hints: outside their enumeration the specification says nothing).
StrictEnum(k) == k \in {"era","lawtype","lang","func","indent","stype"}

\* ------------------------------------------------------------ the schema
NumA == Req("Num", "num", "artnum")
DelA == Dfl("Delete", "delete", "bool", FALSE)
HidA == Dfl("Hide", "hide", "bool", FALSE)
Heading == <<NumA, DelA, HidA>>
StructSlot == AnyOf("struct_list", <<"TableStruct","FigStruct","StyleStruct","List">>)
SoctD == D("soct", <<>>, <<>>)
LSentD == [D("seqvar", <<>>, <<>>) EXCEPT !.alts = Same(<<"Sentence","Column">>)]
ItemD(tag, sub) ==
  Rec(<<Attr("Num", "num", "artnumopt", "reqopt", ""), DelA, HidA>>,
      <<May("title", tag \o "Title"), One("sentence", tag \o "Sentence")>>
      \o (IF sub = "" THEN <<>> ELSE <<Many("children", sub)>>)
      \o <<StructSlot>>)
StructD(name, body, f) == [D("struct", <<>>, <<>>) EXCEPT
   !.slots = <<May("title", name \o "Title"), Many("title_remarks", "Remarks"),
               One(f, body), Many(f \o "_remarks", "Remarks")>>]
Inline == Same(<<"Line","QuoteStruct","ArithFormula","Ruby","Sup","Sub">>)
LineInline == Same(<<"QuoteStruct","ArithFormula","Ruby","Sup","Sub">>)
TextInline == Same(<<"Ruby","Line","Sup","Sub">>)
AnyAlts == Same(<<"Table","TableStruct","Fig","FigStruct","QuoteStruct","NoteStruct","StyleStruct",
  "AppdxTable","Ruby","Line","Sup","Sub","Paragraph","Item","Subitem1","Subitem2","Subitem3","Subitem4",
  "Subitem5","Subitem6","Subitem7","Subitem8","Subitem9","Subitem10","List","Sentence","ArithFormula",
  "Remarks","TOC","TOCSection","TableRow">>)
NewProvTags == <<"LawTitle","Preamble","TOC","Part","PartTitle","Chapter","ChapterTitle","Section",
  "SectionTitle","Subsection","SubsectionTitle","Division","DivisionTitle","Article","SupplNote","Paragraph",
  "Item","Subitem1","Subitem2","Subitem3","Subitem4","Subitem5","Subitem6","Subitem7","Subitem8","Subitem9",
  "Subitem10","List","Sentence","AmendProvision","AppdxTable","AppdxNote","AppdxStyle","Appdx","AppdxFig",
  "AppdxFormat","SupplProvisionAppdxStyle","SupplProvisionAppdxTable","SupplProvisionAppdx","TableStruct",
  "TableRow","TableColumn","FigStruct","NoteStruct","StyleStruct","FormatStruct","Remarks","LawBody">>
AppdxTitle(t) == <<May("title", t), May("related_article_num", "RelatedArticleNum")>>
StrNum == Opt("Num", "num", "str")
TocHead(tf, tt) == <<Slot(tf, "text0", << <<tt, "">> >>), May("article_range", "ArticleRange")>>
TocA == <<NumA, DelA>>

Def == [
  Law |-> RecT(<<Req("Era","era","era"), Req("Year","year","usize"),
              Attr("Num","num","artnum","blank",""),
              Attr("PromulgateMonth","promulgate_month","usize","blankopt",""),
              Attr("PromulgateDay","promulgate_day","usize","blankopt",""),
              Req("LawType","law_type","lawtype"), Req("Lang","lang","lang")>>,
              <<One("law_num","LawNum"), One("law_body","LawBody")>>, "LawNum"),
  LawNum |-> D("str", <<>>, <<>>),
  LawBody |-> Rec(<<Opt("Subject","subject","str")>>,
     <<May("law_title","LawTitle"), Many("enact_statement","EnactStatement"), May("toc","TOC"),
       May("preamble","Preamble"), One("main_provision","MainProvision"),
       Many("suppl_provision","SupplProvision"), Many("appdx_table","AppdxTable"),
       Many("appdx_note","AppdxNote"), Many("appdx_style","AppdxStyle"), Many("appdx","Appdx"),
       Many("appdx_fig","AppdxFig"), Many("appdx_format","AppdxFormat")>>),
  LawTitle |-> TextIn(<<Opt("Kana","kana","str"), Opt("Abbrev","abbrev","str"), Opt("AbbrevKana","abbrev_kana","str")>>),
  EnactStatement |-> TextD,
  Preamble |-> Rec(<<>>, <<Many("children","Paragraph")>>),
  MainProvision |-> Rec(<<Opt("Extract","extract","bool")>>,
     <<AnyOf("children", <<"Part","Chapter","Section","Article","Paragraph">>)>>),
  Part |-> RecT(Heading, <<One("part_title","PartTitle"), AnyOf("children", <<"Chapter","Article">>)>>, "PartTitle"),
  Chapter |-> RecT(Heading, <<One("chapter_title","ChapterTitle"), AnyOf("children", <<"Section","Article">>)>>, "ChapterTitle"),
  Section |-> RecT(Heading, <<One("section_title","SectionTitle"),
                AnyOf("children", <<"Subsection","Article","Division">>)>>, "SectionTitle"),
  Subsection |-> RecT(Heading, <<One("subsection_title","SubsectionTitle"),
                AnyOf("children", <<"Division","Article">>)>>, "SubsectionTitle"),
  Division |-> RecT(Heading, <<One("division_title","DivisionTitle"), Many("children","Article")>>, "DivisionTitle"),
  PartTitle |-> TextD, ChapterTitle |-> TextD, SectionTitle |-> TextD, SubsectionTitle |-> TextD, DivisionTitle |-> TextD,
  Article |-> Rec(Heading, <<May("caption","ArticleCaption"), Slot("title","text0", << <<"ArticleTitle","">> >>),
                Many("paragraph","Paragraph"), May("suppl_note","SupplNote")>>),
  ArticleCaption |-> TextIn(<<Opt("CommonCaption","common_caption","bool")>>),
  ParagraphCaption |-> TextIn(<<Opt("CommonCaption","common_caption","bool")>>),
  ArticleTitle |-> TextD, SupplNote |-> TextD, ParagraphNum |-> TextD,
  Paragraph |-> Rec(<<NumA, Dfl("OldStyle","old_style","bool",FALSE), Dfl("OldNum","old_num","bool",FALSE), HidA>>,
     <<May("caption","ParagraphCaption"), Slot("paragraph_num","text0", << <<"ParagraphNum","">> >>),
       Slot("sentence","vec0", << <<"ParagraphSentence","">> >>), Many("amend_provision","AmendProvision"),
       Many("class","Class"), StructSlot, Many("children","Item")>>),
  ParagraphSentence |-> [D("vec", <<>>, <<>>) EXCEPT !.alts = << <<"Sentence","">> >>],
  AmendProvision |-> Rec(<<>>, <<May("sentence","AmendProvisionSentence"), Slot("new_provision","flat", << <<"NewProvision","">> >>)>>),
  AmendProvisionSentence |-> [D("single", <<>>, <<>>) EXCEPT !.alts = << <<"Sentence","">> >>],
  NewProvision |-> [D("seqvar", <<>>, <<>>) EXCEPT !.alts = Same(NewProvTags)],
  Class |-> Rec(<<Req("Num","num","str")>>, <<May("class_title","ClassTitle"), One("class_sentence","ClassSentence"), Many("children","Item")>>),
  ClassTitle |-> TextD, ClassSentence |-> SoctD,
  Item |-> ItemD("Item","Subitem1"), Subitem1 |-> ItemD("Subitem1","Subitem2"), Subitem2 |-> ItemD("Subitem2","Subitem3"),
  Subitem3 |-> ItemD("Subitem3","Subitem4"), Subitem4 |-> ItemD("Subitem4","Subitem5"), Subitem5 |-> ItemD("Subitem5","Subitem6"),
  Subitem6 |-> ItemD("Subitem6","Subitem7"), Subitem7 |-> ItemD("Subitem7","Subitem8"), Subitem8 |-> ItemD("Subitem8","Subitem9"),
  Subitem9 |-> ItemD("Subitem9","Subitem10"), Subitem10 |-> ItemD("Subitem10",""),
  ItemTitle |-> TextD, Subitem1Title |-> TextD, Subitem2Title |-> TextD, Subitem3Title |-> TextD, Subitem4Title |-> TextD,
  Subitem5Title |-> TextD, Subitem6Title |-> TextD, Subitem7Title |-> TextD, Subitem8Title |-> TextD, Subitem9Title |-> TextD,
  Subitem10Title |-> TextD,
  ItemSentence |-> SoctD, Subitem1Sentence |-> SoctD, Subitem2Sentence |-> SoctD, Subitem3Sentence |-> SoctD,
  Subitem4Sentence |-> SoctD, Subitem5Sentence |-> SoctD, Subitem6Sentence |-> SoctD, Subitem7Sentence |-> SoctD,
  Subitem8Sentence |-> SoctD, Subitem9Sentence |-> SoctD, Subitem10Sentence |-> SoctD,
  Sentence |-> Mixed(<<Opt("Num","num","usize"), Opt("Function","function","func"), Opt("Indent","indent","indent"),
                       Dfl("WritingMode","writing_mode","wmode","Vertical")>>, Inline),
  Column |-> Rec(<<Opt("Num","num","usize"), DflA("LineBreak","line_break","bool",FALSE), Opt("Align","align","align")>>,
                 <<Many("sentence","Sentence")>>),
  Ruby |-> D("ruby", <<>>, <<>>), Rt |-> D("str", <<>>, <<>>),
  Sup |-> D("supsub", <<>>, <<>>), Sub |-> D("supsub", <<>>, <<>>),
  Line |-> Mixed(<<Req("Style","style","line")>>, LineInline),
  QuoteStruct |-> AnyContents(<<>>, AnyAlts),
  ArithFormula |-> AnyContents(<<Opt("Num","num","usize")>>, AnyAlts),
  Style |-> AnyContents(<<>>, AnyAlts), Note |-> AnyContents(<<>>, AnyAlts), Format |-> AnyContents(<<>>, AnyAlts),
  List |-> RecT(<<>>, <<One("sentence","ListSentence"), Many("children","Sublist1")>>, "ListSentence"),
  Sublist1 |-> RecT(<<>>, <<One("sentence","Sublist1Sentence"), Many("children","Sublist2")>>, "Sublist1Sentence"),
  Sublist2 |-> RecT(<<>>, <<One("sentence","Sublist2Sentence"), Many("children","Sublist3")>>, "Sublist2Sentence"),
  Sublist3 |-> RecT(<<>>, <<One("sentence","Sublist3Sentence")>>, "Sublist3Sentence"),
  ListSentence |-> LSentD, Sublist1Sentence |-> LSentD, Sublist2Sentence |-> LSentD, Sublist3Sentence |-> LSentD,
  TableStruct |-> StructD("TableStruct","Table","table"), TableStructTitle |-> TwmD,
  FigStruct |-> StructD("FigStruct","Fig","fig"), FigStructTitle |-> TextD,
  StyleStruct |-> StructD("StyleStruct","Style","style"), StyleStructTitle |-> TextD,
  FormatStruct |-> StructD("FormatStruct","Format","format"), FormatStructTitle |-> TextD,
  NoteStruct |-> StructD("NoteStruct","Note","note"), NoteStructTitle |-> TextD,
  Fig |-> Rec(<<Req("src","src","str")>>, <<>>),
  Remarks |-> Rec(<<>>, <<One("label","RemarksLabel"), AnyOf("children", <<"Item","Sentence">>)>>),
  RemarksLabel |-> TextIn(<<Dfl("LineBreak","line_break","bool",FALSE)>>),
  Table |-> Rec(<<Dfl("WritingMode","writing_mode","wmode","Vertical")>>,
                <<Many("table_header_row","TableHeaderRow"), Many("table_row","TableRow")>>),
  TableHeaderRow |-> Rec(<<>>, <<Many("columns","TableHeaderColumn")>>),
  TableHeaderColumn |-> TextD,
  TableRow |-> Rec(<<>>, <<Many("columns","TableColumn")>>),
  TableColumn |-> Mixed(<<DflA("BorderTop","border_top","line","Solid"), DflA("BorderBottom","border_bottom","line","Solid"),
      DflA("BorderLeft","border_left","line","Solid"), DflA("BorderRight","border_right","line","Solid"),
      Opt("rowspan","rowspan","str"), Opt("colspan","colspan","str"), Opt("Align","align","align"), Opt("Valign","valign","valign")>>,
      Same(<<"Part","Chapter","Section","Subsection","Division","Article","Paragraph","Item","Subitem1","Subitem2","Subitem3",
             "Subitem4","Subitem5","Subitem6","Subitem7","Subitem8","Subitem9","Subitem10","FigStruct","Sentence","Remarks","Column">>)),
  SupplProvision |-> Rec(<<Opt("Type","suppl_provision_type","stype"), Opt("AmendLawNum","amend_law_num","str"), Opt("Extract","extract","bool")>>,
     <<Slot("label","textne", << <<"SupplProvisionLabel","">> >>),
       AnyOf("children", <<"Chapter","Article","Paragraph","SupplProvisionAppdxTable","SupplProvisionAppdxStyle","SupplProvisionAppdx">>)>>),
  SupplProvisionLabel |-> TextD,
  SupplProvisionAppdxTable |-> Rec(<<StrNum>>, <<One("title","SupplProvisionAppdxTableTitle"),
       May("related_article_num","RelatedArticleNum"), Many("table_struct","TableStruct")>>),
  SupplProvisionAppdxTableTitle |-> TwmD,
  SupplProvisionAppdxStyle |-> Rec(<<StrNum>>, <<One("title","SupplProvisionAppdxStyleTitle"),
       May("related_article_num","RelatedArticleNum"), Many("style_struct","StyleStruct")>>),
  SupplProvisionAppdxStyleTitle |-> TwmD,
  SupplProvisionAppdx |-> Rec(<<StrNum>>, <<May("arith_formula_num","ArithFormulaNum"),
       May("related_article_num","RelatedArticleNum"), Many("arith_formula","ArithFormula")>>),
  ArithFormulaNum |-> TextD, RelatedArticleNum |-> TextD,
  AppdxTable |-> Rec(<<StrNum>>, AppdxTitle("AppdxTableTitle") \o <<AnyOf("children", <<"TableStruct","Item">>), May("remarks","Remarks")>>),
  AppdxNote |-> Rec(<<StrNum>>, AppdxTitle("AppdxNoteTitle") \o <<AnyOf("children", <<"NoteStruct","FigStruct","TableStruct">>), May("remarks","Remarks")>>),
  AppdxStyle |-> Rec(<<StrNum>>, AppdxTitle("AppdxStyleTitle") \o <<Many("children","StyleStruct"), May("remarks","Remarks")>>),
  AppdxFormat |-> Rec(<<StrNum>>, AppdxTitle("AppdxFormatTitle") \o <<Many("children","FormatStruct"), May("remarks","Remarks")>>),
  AppdxFig |-> Rec(<<StrNum>>, AppdxTitle("AppdxFigTitle") \o <<AnyOf("children", <<"FigStruct","TableStruct">>)>>),
  Appdx |-> Rec(<<>>, <<May("arith_formula_num","ArithFormulaNum"), May("related_article_num","RelatedArticleNum"),
       Many("arith_formula","ArithFormula"), May("remarks","Remarks")>>),
  AppdxTableTitle |-> TwmD, AppdxNoteTitle |-> TwmD, AppdxStyleTitle |-> TwmD, AppdxFormatTitle |-> TwmD, AppdxFigTitle |-> TwmD,
  TOC |-> Rec(<<>>, <<May("toc_label","TOCLabel"), May("toc_preamble_label","TOCPreambleLabel"),
       AnyOf("toc_main_contents", <<"TOCPart","TOCChapter","TOCSection","TOCArticle">>),
       May("toc_suppl_provision","TOCSupplProvision"), Many("toc_appdx_table_label","TOCAppdxTableLabel")>>),
  TOCLabel |-> TextD, TOCPreambleLabel |-> TextD, TOCAppdxTableLabel |-> TextD, ArticleRange |-> TextD,
  TOCPart |-> Rec(TocA, TocHead("part_title","PartTitle") \o <<Many("children","TOCChapter")>>),
  TOCChapter |-> Rec(TocA, TocHead("chapter_title","ChapterTitle") \o <<Many("children","TOCSection")>>),
  TOCSection |-> Rec(TocA, TocHead("section_title","SectionTitle") \o <<AnyOf("children", <<"TOCSubsection","TOCDivision">>)>>),
  TOCSubsection |-> Rec(TocA, TocHead("subsection_title","SubsectionTitle") \o <<Many("children","TOCDivision")>>),
  TOCDivision |-> Rec(TocA, TocHead("division_title","DivisionTitle")),
  TOCArticle |-> Rec(TocA, <<Slot("article_title","text0", << <<"ArticleTitle","">> >>), One("article_caption","ArticleCaption")>>),
  TOCSupplProvision |-> Rec(<<>>, <<Slot("suppl_provision_label","text0", << <<"SupplProvisionLabel","">> >>),
       May("article_range","ArticleRange"), AnyOf("children", <<"TOCArticle","TOCChapter">>)>>)
]
Tags == DOMAIN Def

\* ------------------------------------------------------------ attributes
HasAttr(n, name) == \E i \in 1..Len(n.a) : n.a[i][1] = name
AttrOf(n, name) == n.a[CHOOSE i \in 1..Len(n.a) : n.a[i][1] = name][2]

EmptyText == [contents |-> <<>>]

\* "1_2:3_4"  ->  base 1, branches <<2>>, end of range <<3,4>>
NumListOk(s) == LET q == Split(s, "_") IN \A i \in 1..Len(q) : IsNatStr(q[i])
NumList(s) == LET q == Split(s, "_") IN [i \in 1..Len(q) |-> NatOf(q[i])]
ArtNumOk(s) == LET q == Split(s, ":") IN Len(q) \in 1..2 /\ \A i \in 1..Len(q) : NumListOk(q[i])
ArtNum(s) ==
  LET q == Split(s, ":")
      l == NumList(q[1])
  IN [base_number |-> l[1], eda_numbers |-> SubSeq(l, 2, Len(l)),
      range_end_numbers |-> IF Len(q) = 2 THEN NumList(q[2]) ELSE <<>>]
UnNumList(l) == Join([i \in 1..Len(l) |-> StrOf(l[i])], "_")
ArtNumStr(v) ==
  UnNumList(<<v.base_number>> \o v.eda_numbers)
  \o (IF Len(v.range_end_numbers) = 0 THEN "" ELSE ":" \o UnNumList(v.range_end_numbers))

\* Is the attribute text s acceptable for the kind?  If so, its value.
KindOk(k, s) ==
  CASE k = "str" -> TRUE
    [] k = "usize" -> IsNatStr(s)
    [] k = "bool" -> s \in {"true","false"}
    [] k \in {"artnum", "artnumopt"} -> ArtNumOk(s)
    [] OTHER -> \E i \in 1..Len(EnumOf(k)) : EnumOf(k)[i][1] = s
KindVal(k, s) ==
  CASE k = "str" -> s
    [] k = "usize" -> NatOf(s)
    [] k = "bool" -> s = "true"
    [] k \in {"artnum", "artnumopt"} -> ArtNum(s)
    [] OTHER -> EnumOf(k)[CHOOSE i \in 1..Len(EnumOf(k)) : EnumOf(k)[i][1] = s][2]
KindStr(k, v) ==
  CASE k = "str" -> v
    [] k = "usize" -> StrOf(v)
    [] k = "bool" -> (IF v THEN "true" ELSE "false")
    [] k \in {"artnum", "artnumopt"} -> ArtNumStr(v)
    [] OTHER -> EnumOf(k)[CHOOSE i \in 1..Len(EnumOf(k)) : EnumOf(k)[i][2] = v][1]

\* Result of reading attribute d of node n: <<"none">>, <<"val", v>>, <<"err">>
ReadAttr(n, d) ==
  IF ~HasAttr(n, d.n) THEN
    CASE d.p \in {"req", "reqopt", "blank"} -> <<"err">>
      [] d.p \in {"opt", "blankopt"} -> <<"none">>
      [] OTHER -> <<"val", d.d>>
  ELSE LET s == AttrOf(n, d.n) IN
    IF d.p \in {"blank", "blankopt"} /\ s = "" THEN <<"none">>
    ELSE IF KindOk(d.k, s) THEN <<"val", KindVal(d.k, s)>>
    ELSE IF d.p = "reqopt" THEN <<"none">>
    ELSE <<"err">>
\* What the attributes contribute: a sequence of <<field, value>>, or an error.
RECURSIVE ReadAttrs(_, _)
ReadAttrs(n, ds) ==
  IF ds = <<>> THEN Ok(<<>>)
  ELSE LET r == ReadAttr(n, Head(ds)) rest == ReadAttrs(n, Tail(ds)) IN
    IF r[1] = "err" THEN Err("attribute " \o Head(ds).n \o " of " \o n.t)
    ELSE IF ~rest.ok THEN rest
    ELSE IF r[1] = "none" THEN rest
    ELSE Ok(<< <<Head(ds).f, r[2]>> >> \o rest.v)
\* Build a record from a sequence of <<field, value>>.
RecOf(ps) ==
  [f \in {ps[i][1] : i \in 1..Len(ps)} |->
      ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = f][2]]
Has(v, f) == f \in DOMAIN v

RECURSIVE WriteAttrs(_, _)
WriteAttrs(v, ds) ==
  IF ds = <<>> THEN <<>>
  ELSE LET d == Head(ds) rest == WriteAttrs(v, Tail(ds)) IN
    IF ~Has(v, d.f) THEN (IF d.p \in {"blank","reqopt"} THEN << <<d.n, "">> >> ELSE <<>>) \o rest
    ELSE IF d.p = "def" /\ v[d.f] = d.d THEN rest
    ELSE << <<d.n, KindStr(d.k, v[d.f])>> >> \o rest

\* ------------------------------------------------------------ reading
\* Comments and processing instructions carry no information; character data
\* consisting only of white space is layout; adjacent character data is one.
WsChar(c) == c \in {" ", "\t", "\n", "\r"}
IsBlank(s) == \A i \in 1..Len(s) : WsChar(Ch(s, i))
RECURSIVE Glue(_, _)
Glue(c, acc) ==
  IF c = <<>> THEN acc
  ELSE LET n == Head(c) IN
    IF IsTx(n) /\ acc # <<>> /\ IsTx(acc[Len(acc)])
    THEN Glue(Tail(c), [acc EXCEPT ![Len(acc)] = Tx(acc[Len(acc)].x \o n.x)])
    ELSE Glue(Tail(c), Append(acc, n))
IsInfo(n) == IsEl(n) \/ IsTx(n)
Kids(n) == LET c == Glue(SelectSeq(n.c, IsInfo), <<>>)
               Keep(m) == IsEl(m) \/ ~IsBlank(m.x)
           IN SelectSeq(c, Keep)
ElKids(n) == LET E(m) == IsEl(m) IN SelectSeq(n.c, E)
RawText(n) == LET T(m) == IsTx(m)
                  q == SelectSeq(Kids(n), T)
              IN Concat([i \in 1..Len(q) |-> q[i].x])

SlotHas(s, t) == \E j \in 1..Len(s.alts) : s.alts[j][1] = t
VariantOf(alts, t) == alts[CHOOSE j \in 1..Len(alts) : alts[j][1] = t][2]
AltHas(alts, t) == \E j \in 1..Len(alts) : alts[j][1] = t
Tagged(var, v) == IF var = "" THEN v ELSE (var :> v)

RECURSIVE Parse(_), ParseAll(_, _), ParseMixed(_, _, _), ParseSlots(_, _, _)

\* Parse a list of element nodes, each against the alternatives.
ParseAll(ns, alts) ==
  IF ns = <<>> THEN Ok(<<>>)
  ELSE IF ~AltHas(alts, Head(ns).t) THEN Err("unexpected " \o Head(ns).t)
  ELSE LET r == Parse(Head(ns)) IN
    IF ~r.ok THEN r
    ELSE LET rest == ParseAll(Tail(ns), alts) IN
      IF ~rest.ok THEN rest
      ELSE Ok(<<Tagged(VariantOf(alts, Head(ns).t), r.v)>> \o rest.v)

\* Mixed content: text becomes the variant `tv`.
ParseMixed(ns, alts, tv) ==
  IF ns = <<>> THEN Ok(<<>>)
  ELSE LET n == Head(ns)
           r == IF IsTx(n) THEN Ok(tv :> n.x)
                ELSE IF ~AltHas(alts, n.t) THEN Err("unexpected " \o n.t)
                ELSE LET p == Parse(n) IN IF p.ok THEN Ok(n.t :> p.v) ELSE p
       IN IF ~r.ok THEN r
          ELSE LET rest == ParseMixed(Tail(ns), alts, tv) IN
            IF ~rest.ok THEN rest ELSE Ok(<<r.v>> \o rest.v)

ParseSlots(n, slots, kids) ==
  IF slots = <<>> THEN Ok(<<>>)
  ELSE LET s == Head(slots)
           InSlot(m) == SlotHas(s, m.t)
           mine == SelectSeq(kids, InSlot)
           r == ParseAll(mine, s.alts)
           rest == ParseSlots(n, Tail(slots), kids)
       IN IF ~r.ok THEN r
          ELSE IF ~rest.ok THEN rest
          ELSE IF s.card \in {"one","opt","text0","textne","vec0"} /\ Len(r.v) > 1
               THEN Err("repeated " \o s.alts[1][1])
          ELSE CASE s.card = "one" -> IF r.v = <<>> THEN Err("missing " \o s.alts[1][1])
                                      ELSE Ok(<< <<s.f, r.v[Len(r.v)]>> >> \o rest.v)
                 [] s.card = "opt" -> IF r.v = <<>> THEN rest
                                      ELSE Ok(<< <<s.f, r.v[Len(r.v)]>> >> \o rest.v)
                 [] s.card = "many" -> Ok(<< <<s.f, r.v>> >> \o rest.v)
                 [] s.card \in {"text0","textne"} ->
                       Ok(<< <<s.f, IF r.v = <<>> THEN EmptyText ELSE r.v[Len(r.v)]>> >> \o rest.v)
                 [] s.card \in {"vec0","flat"} -> Ok(<< <<s.f, FlattenSeq(r.v)>> >> \o rest.v)

\* TableStruct & co: remarks before the body belong to the title.
ParseStruct(n, d, kids) ==
  LET body == d.slots[3].alts[1][1]
      IsBody(m) == m.t = body
      IsRem(m) == m.t = "Remarks"
      bs == {i \in 1..Len(kids) : IsBody(kids[i])}
      known(m) == m.t \in {d.slots[1].alts[1][1], "Remarks", body}
  IN IF \E i \in 1..Len(kids) : ~known(kids[i]) THEN Err("unexpected in " \o n.t)
     ELSE IF bs = {} THEN Err("missing " \o body)
     ELSE IF Cardinality(bs) > 1 THEN Err("repeated " \o body)
     ELSE LET b == CHOOSE i \in bs : \A j \in bs : i <= j
              r1 == ParseSlots(n, <<d.slots[1], d.slots[2]>>, SubSeq(kids, 1, b - 1))
              r2 == ParseSlots(n, <<d.slots[3], d.slots[4]>>, SubSeq(kids, b, Len(kids)))
          IN IF ~r1.ok THEN r1 ELSE IF ~r2.ok THEN r2 ELSE Ok(r1.v \o r2.v)

Parse(n) ==
  IF n.t \notin Tags THEN Err("unknown element " \o n.t) ELSE
  LET d == Def[n.t]
      as == ReadAttrs(n, d.attrs)
      kids == Kids(n)
      ek == ElKids(n)
      slotTags == UNION {{d.slots[i].alts[j][1] : j \in 1..Len(d.slots[i].alts)} : i \in 1..Len(d.slots)}
  IN IF ~as.ok THEN as ELSE
  CASE d.k = "rec" ->
         LET InSome(m) == m.t \in slotTags
         IN IF \E i \in 1..Len(ek) : ~InSome(ek[i]) THEN Err("unexpected in " \o n.t)
            ELSE IF d.first # "" /\ (ek = <<>> \/ Head(ek).t # d.first) THEN Err("missing " \o d.first)
            ELSE LET r == ParseSlots(n, d.slots, ek) IN
                 IF ~r.ok THEN r ELSE Ok(RecOf(as.v \o r.v))
    [] d.k = "struct" -> LET r == ParseStruct(n, d, ek) IN IF ~r.ok THEN r ELSE Ok(RecOf(as.v \o r.v))
    [] d.k \in {"text", "twm", "textin"} ->
         LET r == ParseMixed(kids, TextInline, "Text") IN
         IF ~r.ok THEN r
         ELSE IF d.k = "textin" THEN Ok(RecOf(as.v \o << <<"text", [contents |-> r.v]>> >>))
         ELSE Ok(RecOf(as.v \o << <<"contents", r.v>> >>))
    [] d.k = "str" -> IF ek # <<>> THEN Err("unexpected in " \o n.t) ELSE Ok(RawText(n))
    [] d.k = "supsub" -> IF ek # <<>> THEN Err("unexpected in " \o n.t) ELSE Ok([text |-> RawText(n)])
    [] d.k = "ruby" ->
         LET IsRt(m) == m.t = "Rt"
             rts == SelectSeq(ek, IsRt)
         IN IF Len(rts) # Len(ek) THEN Err("unexpected in " \o n.t)
            ELSE IF \E i \in 1..Len(rts) : ElKids(rts[i]) # <<>> THEN Err("unexpected in Rt")
            \* the base text is one piece, also when it continues after the reading
            ELSE Ok([text |-> [contents |-> IF RawText(n) = "" THEN <<>> ELSE << [Text |-> RawText(n)] >>],
                ruby |-> IF rts = <<>> THEN "" ELSE RawText(rts[Len(rts)])])
    [] d.k = "mixed" ->
         LET r == ParseMixed(kids, d.alts, "String") IN
         IF ~r.ok THEN r ELSE Ok(RecOf(as.v \o << <<"contents", r.v>> >>))
    [] d.k = "any" ->
         LET r == ParseMixed(kids, d.alts, "String") IN
         IF ~r.ok THEN r ELSE Ok(RecOf(as.v \o << <<"contentes", [contents |-> r.v]>> >>))
    [] d.k \in {"vec", "seqvar"} -> ParseAll(ek, d.alts)
    [] d.k = "single" ->
         IF Len(ek) # 1 THEN Err("sentence of " \o n.t)
         ELSE LET r == ParseAll(ek, d.alts) IN IF ~r.ok THEN r ELSE Ok(r.v[1])
    [] d.k = "soct" ->
         LET kinds == {ek[i].t : i \in 1..Len(ek)} IN
         IF Cardinality(kinds) # 1 THEN Err("sentence, column or table of " \o n.t)
         ELSE LET k == ek[1].t r == ParseAll(ek, << <<"Sentence","">>, <<"Column","">>, <<"Table","">> >>) IN
              IF ~r.ok THEN r
              ELSE IF k = "Table" /\ Len(r.v) > 1 THEN Err("tables of " \o n.t)
              ELSE IF k = "Table" THEN Ok("Table" :> r.v[Len(r.v)]) ELSE Ok(k :> r.v)

\* ------------------------------------------------------------ writing
RECURSIVE Emit(_, _), EmitSlots(_, _), EmitVariants(_)
VarName(w) == CHOOSE k \in DOMAIN w : TRUE
EmitVariants(ws) ==
  IF ws = <<>> THEN <<>>
  ELSE LET w == Head(ws) k == VarName(w) IN
    <<IF k \in {"String", "Text"} THEN Tx(w[k]) ELSE Emit(k, w[k])>> \o EmitVariants(Tail(ws))
EmitSlots(v, slots) ==
  IF slots = <<>> THEN <<>>
  ELSE LET s == Head(slots)
           t == s.alts[1][1]
           bare == s.alts[1][2] = ""
           here ==
             CASE ~Has(v, s.f) -> <<>>
               [] s.card \in {"one","opt","text0","vec0"} /\ Has(v, s.f) -> <<Emit(t, v[s.f])>>
               [] s.card = "textne" /\ Has(v, s.f) -> IF v[s.f].contents = <<>> THEN <<>> ELSE <<Emit(t, v[s.f])>>
               [] s.card = "many" /\ Has(v, s.f) ->
                    IF bare THEN [i \in 1..Len(v[s.f]) |-> Emit(t, v[s.f][i])] ELSE EmitVariants(v[s.f])
               [] s.card = "flat" /\ Has(v, s.f) -> [i \in 1..Len(v[s.f]) |-> Emit(t, <<v[s.f][i]>>)]
       IN here \o EmitSlots(v, Tail(slots))
TxNE(s) == IF s = "" THEN <<>> ELSE <<Tx(s)>>
Emit(t, v) ==
  LET d == Def[t] IN
  CASE d.k \in {"rec", "struct"} -> El(t, WriteAttrs(v, d.attrs), EmitSlots(v, d.slots))
    [] d.k \in {"text", "twm", "mixed"} -> El(t, WriteAttrs(v, d.attrs), EmitVariants(v.contents))
    [] d.k = "textin" -> El(t, WriteAttrs(v, d.attrs), EmitVariants(v.text.contents))
    [] d.k = "any" -> El(t, WriteAttrs(v, d.attrs), EmitVariants(v.contentes.contents))
    [] d.k = "str" -> El(t, <<>>, TxNE(v))
    [] d.k = "supsub" -> El(t, <<>>, TxNE(v.text))
    [] d.k = "ruby" -> El(t, <<>>, EmitVariants(v.text.contents) \o <<El("Rt", <<>>, TxNE(v.ruby))>>)
    [] d.k = "vec" -> El(t, <<>>, [i \in 1..Len(v) |-> Emit(d.alts[1][1], v[i])])
    [] d.k = "seqvar" -> El(t, <<>>, EmitVariants(v))
    [] d.k = "single" -> El(t, <<>>, <<Emit(d.alts[1][1], v)>>)
    [] d.k = "soct" -> LET k == VarName(v) IN
         El(t, <<>>, IF k = "Table" THEN <<Emit("Table", v[k])>> ELSE [i \in 1..Len(v[k]) |-> Emit(k, v[k][i])])
=============================================================================
