------------------------------ MODULE TextLaw ------------------------------
(***************************************************************************)
(* A law given as plain text, read line by line (P14, P15, P16, P17, P19). *)
(*                                                                         *)
(* A behaviour appends one line at a time; `law` is the parser's state     *)
(* after the lines so far: the nodes of the law in text order, the         *)
(* containers still open, a caption that waits for what it belongs to, and *)
(* whether a line had no place. Every state is a complete case: the text   *)
(* so far must parse to exactly these nodes, or be refused.                *)
(***************************************************************************)
EXTENDS TextParse, Json, CSV

CONSTANTS Words,      \* kinds of lines to append (blank-separated)
          MaxLines,
          Decos,      \* ways to lay a text out
          Starts,     \* the texts grown from: vocabulary words (blank-separated)
          Random,     \* to append one word drawn at random, not every one
          Least,      \* texts of fewer lines than this are not put out
          Edits,      \* whether to edit one character of the last line,
          Strays,     \* also to one of these
          Shard, Shards, OutFile

Vocab == Split(Words, " ")
LeadOf(w) == IF w = "" THEN <<>> ELSE Split(w, " ")

\* ------------------------------------------------------------------ the texts
D0 == [sep |-> "　", ind |-> "", eol |-> "\n", gap |-> "", fin |-> ""]
Deco(name) ==
  CASE name = "plain" -> D0
    [] name = "ascii" -> [D0 EXCEPT !.sep = " ", !.fin = "\n"]
    [] name = "wide" -> [D0 EXCEPT !.sep = "　　", !.ind = "　", !.gap = "\n"]
    [] name = "crlf" -> [D0 EXCEPT !.sep = "\t", !.ind = "  ", !.eol = "\r\n", !.fin = "\r\n \r\n", !.gap = " 　\r\n"]
N(b) == [base |-> StrOf(b), edas |-> <<>>, range |-> <<>>]
NE(b) == [base |-> StrOf(b), edas |-> <<"2", "3">>, range |-> <<>>]
NR(b) == [base |-> StrOf(b), edas |-> <<"2">>, range |-> <<StrOf(b + 3), "4">>]
Wr(x, f) == Concat(Render(x, f))
\* an item notation, or one followed by a mark for what stands after it: x and y deleted, z nothing but a text that others have too
Notation(w) == IF w \in Items THEN w ELSE LET v == SubSeq(w, 1, Len(w) - 1) IN IF v \in Items THEN v ELSE ""
\* numbers that are not quite one
OddLines == [o1 |-> "（０）", o2 |-> "０", o3 |-> "（００）", o4 |-> "９９９９９９９９９９９９９９９９９９９９９", o5 |-> "（ⅰ）", o6 |-> "第〇条",
             o7 |-> "（ＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺ）", o8 |-> "ⅳ", o9 |-> "一万", oa |-> "イのロの０", ob |-> "（１）の０", oc |-> "（１）から（０）まで",
             od |-> "0", oe |-> "０の２", of |-> "第0条", og |-> "第１８４４６７４４０７３７０９５５１６１６条", oh |-> "（①）", oi |-> "（）", oj |-> "千千", ok |-> "（ん）",
             ol |-> "ー", om |-> "ａのＡ", on |-> "（ａ）の（ｂ）", oo |-> "ＩＩＩＩ", op |-> "（ＩＶＩＶ）", oq |-> "ィ", or |-> "ｱ", os |-> "第条", ot |-> "からまで", ou |-> "（一からまで",
             ov |-> "ＣＣＣＣＣＣＣＣＣＣＣＣＣＣＣＣＣＣ", ow |-> "（０）の（０）から（０）まで", ox |-> "第三条の〇", oy |-> "18446744073709551615", oz |-> "第18446744073709551615編"]
\* the line a vocabulary word stands for, with number b; i tells lines apart
LineOf(w, b, i, sp) ==
  LET m == StrOf(i) IN
  CASE w = "part" -> Wr(N(b), "part") \o sp \o "編題" \o m
    [] w = "part2" -> Wr(NE(b), "part") \o sp \o "編題" \o m
    [] w = "partx" -> Wr(NR(b), "part") \o sp \o "削除"
    [] w = "chapter" -> Wr(N(b), "chapter") \o sp \o "章題" \o m
    [] w = "chapter2" -> Wr(NE(b), "chapter") \o sp \o "第一条" \o sp \o "章題" \o m
    [] w = "chapterx" -> Wr(N(b), "chapter") \o sp \o "（削除）"
    [] w = "section" -> Wr(N(b), "section") \o sp \o "節題" \o m
    [] w = "section2" -> Wr(NR(b), "section") \o sp \o "節題" \o m
    [] w = "sectionx" -> Wr(N(b), "section") \o sp \o "削除"
    [] w = "subsection" -> Wr(N(b), "subsection") \o sp \o "款題" \o m
    [] w = "subsectionx" -> Wr(NE(b), "subsection") \o sp \o "削除"
    [] w = "division" -> Wr(N(b), "division") \o sp \o "目題" \o m
    [] w = "divisionx" -> Wr(NE(b), "division") \o sp \o "（削除）"
    [] w = "caption" -> "（見出し" \o m \o "）"
    [] w = "article" -> Wr(N(b), "article") \o sp \o "条文" \o m
    [] w = "article2" -> Wr(NE(b), "article") \o sp \o "条文" \o m \o "第二条" \o sp \o "後段"
    [] w = "articlex" -> Wr(NR(b), "article") \o sp \o "削除"
    [] w = "articlez" -> "第１２条のノ" \o sp \o "条文"
    [] w = "paragraph" -> Wr(N(b), "paragraph") \o sp \o "項文" \o m
    [] w = "paragraph2" -> Wr(NE(b), "paragraph") \o sp \o "項文（" \o m \o "）"
    [] w = "paragraphx" -> StrOf(b) \o sp \o "削除"
    [] w = "suppl" -> "附" \o sp \o "則"
    [] w = "supplaw" -> "附" \o sp \o "則" \o sp \o "（平成" \o m \o "年法律第一号）"
    [] w = "supplx" -> "附則" \o sp \o "（昭和" \o m \o "年勅令第二号）" \o sp \o "抄"
    [] w = "suppls" -> "附則抄"
    [] w = "text" -> "本文" \o m \o "。"
    [] w = "text2" -> "第一条の規定" \o m \o "は、この限りでない。"
    [] w = "text3" -> "なお" \o sp \o "従前の例" \o m
    [] w = "text4" -> "附則第" \o m \o "条の施行の日"
    [] w = "text5" -> "（注）" \o m \o "（注）"
    [] w = "text6" -> "一" \o m \o "一、" \o sp \o "第一条" \o sp \o "末尾"
    [] w = "text7" -> "第一条及び第二条" \o sp \o "削除" \o m
    [] w = "itemx" -> "一" \o sp \o "削除"
    [] w = "item2" -> Wr(NE(b), "NoParenKansuji") \o sp \o "号文" \o m
    [] w = "itemr" -> Wr(NR(b), "NoParenIrohaKatakana") \o sp \o "（削除）"
    [] w = "same" -> "同文。"
    [] w = "title" -> "題名"       \* what is given beside the text, as a line of it
    [] w = "lawnum" -> "平成十一年法律第百二十七号"
       \* (these hold whole blocks of characters: see harness/src/util.rs)
    [] w = "every1" -> Wr(N(b), "chapter") \o sp \o "章題" \o m
    [] w = "every2" -> Wr(N(b), "article") \o sp \o "条文" \o m
    [] w = "every3" -> Wr(N(b), "paragraph") \o sp \o "項文。"
    [] w = "every4" -> Wr(N(b), "NoParenKansuji") \o sp \o "号文" \o m
    [] w = "every5" -> "（見）"
    [] w = "every6" -> "本文。"
    [] w = "other1" -> Wr(N(b), "section") \o sp \o "節題" \o m
    [] w = "other2" -> Wr(N(b), "article") \o sp \o "条文" \o m \o sp \o "後段"
    [] w = "other3" -> Wr(N(b), "ParenZenkakuNum") \o sp \o "号文" \o sp \o "後段"
    [] w = "other5" -> "（見）"
    [] w = "other6" -> "なお" \o sp \o "本文。"
    [] w = "long2" -> Wr(N(b), "article") \o sp \o "" \o m
    [] w = "long4" -> Wr(N(b), "NoParenIrohaKatakana") \o sp \o "" \o m \o sp \o ""
    [] w = "long5" -> "（）"
    [] w = "long6" -> "" \o m
       \* (characters of another width before, so that a long line may be cut inside one)
    [] w = "long7" -> "a" \o m
    [] w = "long8" -> "é" \o sp \o "a" \o m
    [] w = "long9" -> Wr(N(b), "NoParenKansuji") \o sp \o "a" \o m
    [] w \in DOMAIN OddLines -> OddLines[w] \o sp \o "数"
    [] w \in Items -> Wr(N(b), w) \o sp \o "号文" \o m
    [] OTHER -> Wr(N(b), Notation(w)) \o sp \o (LET x == Ch(w, Len(w)) IN IF x = "x" THEN "削除" ELSE IF x = "y" THEN "（削除）" ELSE "同文。")
\* items count on at their level, or begin at one
NextNum(w, s, i) ==
  IF Notation(w) = "" THEN i
  ELSE LET l == ItemLevel(s.open, Notation(w)) IN IF l = 0 THEN 1 ELSE IF s.open[l].last = "" THEN 1 ELSE NatOf(s.open[l].last) + 1

VARIABLES lines, law, deco, edit, key,
          led    \* how many lines the text was grown from
vars == <<lines, law, deco, edit, key, led>>
RECURSIVE Led(_, _, _, _, _)
Led(lead, sp, i, ls, s) ==
  IF i > Len(lead) THEN [ls |-> ls, s |-> s]
  ELSE LET l == LineOf(lead[i], NextNum(lead[i], s, i), i, sp) IN Led(lead, sp, i + 1, Append(ls, l), Step(s, Classify(l)))
RECURSIVE Reparse(_, _, _)
Reparse(ls, i, s) == IF i > Len(ls) THEN s ELSE Reparse(ls, i + 1, Step(s, Classify(ls[i])))
Init == /\ deco \in Decos
        /\ \E start \in Starts : LET r == Led(LeadOf(start), Deco(deco).sep, 1, <<>>, Empty) IN lines = r.ls /\ law = r.s /\ led = Len(r.ls)
        /\ edit = FALSE /\ key = 0
Added == Len(lines) - led
AddLine == /\ ~edit /\ Added < MaxLines
           /\ \E v \in IF Random THEN {RandomElement(1..Len(Vocab))} ELSE 1..Len(Vocab) :
                LET i == Len(lines) + 1
                    l == LineOf(Vocab[v], NextNum(Vocab[v], law, i), i, Deco(deco).sep)
                IN /\ Added = (IF MaxLines = 1 THEN 0 ELSE 1) => (key * Len(Vocab) + v) % Shards = Shard
                   /\ key' = IF Added = 0 THEN v ELSE 0
                   /\ lines' = Append(lines, l)
                   /\ law' = Step(law, Classify(l))
           /\ UNCHANGED <<deco, edit, led>>
\* one character of the last line is lost, doubled, or another
EditLine == /\ Edits /\ ~edit /\ Added >= 1
            /\ LET q == Chars(lines[Len(lines)]) IN
               \E i \in 1..Len(q) : \E x \in Strays \cup {"drop", "twice"} :
                 LET e == IF x = "drop" THEN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
                          ELSE IF x = "twice" THEN SubSeq(q, 1, i) \o SubSeq(q, i, Len(q))
                          ELSE [q EXCEPT ![i] = x]
                     ls == [lines EXCEPT ![Len(lines)] = Concat(e)]
                 IN lines' = ls /\ law' = Reparse(ls, 1, Empty)
            /\ edit' = TRUE /\ UNCHANGED <<deco, key, led>>
Next == AddLine \/ EditLine
Spec == Init /\ [][Next]_vars

Joined == LET D == Deco(deco) IN Join([i \in 1..Len(lines) |-> D.ind \o lines[i]], D.eol \o D.gap) \o D.fin

\* -------------------------------------------------------------- properties
Say(what) == PrintT(<<"INVARIANT FAILS", what, lines>>) /\ FALSE
Some(q) == SelectSeq(q, LAMBDA x : x # "")
RECURSIVE LineWords(_)
LineWords(i) == IF i > Len(lines) THEN <<>> ELSE <<Classify(lines[i]).t>> \o LineWords(i + 1)
NodeWords(nd) == nd.cap \o <<nd.t>> \o nd.ts
RECURSIVE AllNodeWords(_)
AllNodeWords(i) == IF i > Len(law.nodes) THEN <<>> ELSE NodeWords(law.nodes[i]) \o AllNodeWords(i + 1)
RECURSIVE LineNums(_)
LineNums(i) == IF i > Len(lines) THEN <<>>
               ELSE LET c == Classify(lines[i]) IN (IF c.n = NoNum THEN <<>> ELSE <<c.n>>) \o LineNums(i + 1)
NodeNums == LET q == SelectSeq(law.nodes, LAMBDA nd : ~nd.imp /\ nd.k \notin {"Preamble", "Suppl"}) IN [i \in 1..Len(q) |-> q[i].n]
\* P15: every line's words and number once, in order -- unless the text is refused
NothingLost == ~Refused(law) => Some(AllNodeWords(1)) = Some(LineWords(1)) /\ NodeNums = LineNums(1)
\* P14: every node stands under one that may hold it
ParentKind(i) == LET J == {j \in 1..(i - 1) : law.nodes[j].d < law.nodes[i].d} IN
                 IF J = {} THEN "Main" ELSE LET j == CHOOSE j \in J : \A h \in J : h <= j IN
                 IF law.nodes[j].d = law.nodes[i].d - 1 THEN law.nodes[j].k ELSE "gap"
Nested == \A i \in 1..Len(law.nodes) :
  LET kd == law.nodes[i].k IN
  CASE kd = "Preamble" -> law.nodes[i].d = 0 /\ \A j \in 1..(i - 1) : law.nodes[j].k = "Preamble"
    [] kd = "Suppl" -> law.nodes[i].d = 0
    [] kd = "Item" -> ParentKind(i) \in {"Paragraph", "Item"}
    [] OTHER -> IF law.nodes[i].d = 1 /\ ParentKind(i) # "Suppl" THEN Contains("Main", kd) ELSE Contains(ParentKind(i), kd)
\* the supplementary provisions are last
SupplLast == \A i, j \in 1..Len(law.nodes) : (i < j /\ law.nodes[i].k = "Suppl") => law.nodes[j].k \notin {"Preamble", "Part"}

Case == [id |-> deco \o ":" \o Join(lines, "|"), text |-> Joined, refused |-> Refused(law), loose |-> law.loose,
         nodes |-> law.nodes, words |-> Some(LineWords(1))]
Holds == /\ NothingLost \/ Say("NothingLost")
         /\ Nested \/ Say("Nested")
         /\ SupplLast \/ Say("SupplLast")
         /\ OutFile = "" \/ Len(lines) < Least \/ CSVWrite("%1$s", <<ToJson(Case)>>, OutFile)
=============================================================================
