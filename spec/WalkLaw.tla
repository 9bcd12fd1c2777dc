------------------------------ MODULE WalkLaw ------------------------------
(***************************************************************************)
(* Lists made from a provision: its articles with the numbers of what      *)
(* encloses them, its bare paragraphs in groups (P20), and its table of    *)
(* contents (P21).                                                         *)
(*                                                                         *)
(* A behaviour grows a main or supplementary provision heading by heading, *)
(* in document order; the walker's lists grow along. What the walker       *)
(* carries from place to place is compared with what each place says       *)
(* itself, by the headings that enclose it.                                *)
(***************************************************************************)
EXTENDS TextParse, FiniteSets, Json, CSV

CONSTANTS Roots, MaxNodes,
          Namings,     \* "own": each heading has its own number and title; "equal": all have the same
          Shard, Shards, OutFile

VARIABLES root, naming, nodes, open, arts, groups, toc, key
vars == <<root, naming, nodes, open, arts, groups, toc, key>>

Levels == <<"Part", "Chapter", "Section", "Subsection", "Division">>
Nowhere == [Part |-> "", Chapter |-> "", Section |-> "", Subsection |-> "", Division |-> ""]
Own(i) == IF naming = "own" THEN i ELSE 1
NumOf(j) == LET i == Own(j)
                s == StrOf(i) IN CASE i % 3 = 0 -> s \o "_2" [] i % 3 = 1 -> s [] OTHER -> s \o ":" \o StrOf(i + 1)
TitleOf(j) == LET i == Own(j) IN IF i % 2 = 0 THEN <<[e |-> "text", s |-> "題" \o StrOf(i)]>>
              ELSE <<[e |-> "text", s |-> "題"], [e |-> "ruby", s |-> "漢"], [e |-> "sup", s |-> "2"], [e |-> "text", s |-> StrOf(i)]>>
TitleText(j) == LET i == Own(j) IN IF i % 2 = 0 THEN "題" \o StrOf(i) ELSE "題漢2" \o StrOf(i)

Init == /\ root \in Roots /\ naming \in Namings /\ nodes = <<>>
        /\ open = <<[k |-> root, at |-> Nowhere]>>
        /\ arts = <<>> /\ groups = <<<<>>>> /\ toc = <<>> /\ key = 0
KindSeq == Levels \o <<"Article", "Paragraph">>
Kinds == {KindSeq[i] : i \in 1..Len(KindSeq)}
KeyOf(kd) == CHOOSE i \in 1..Len(KindSeq) : KindSeq[i] = kd
\* a bare paragraph stands in the provision itself
May(c, kd) == Contains(c, kd) /\ (kd = "Paragraph" => c = root)
Add(kd, l) ==
  LET i == Len(nodes) + 1
      here == open[l].at
      at == IF In(Levels, kd) THEN [here EXCEPT ![kd] = NumOf(i)] ELSE here
  IN /\ May(open[l].k, kd)
     /\ nodes' = Append(nodes, [k |-> kd, d |-> l, id |-> Own(i), n |-> NumOf(i), title |-> TitleOf(i)])
     /\ open' = IF In(Levels, kd) THEN Append(SubSeq(open, 1, l), [k |-> kd, at |-> at]) ELSE SubSeq(open, 1, l)
     /\ arts' = IF kd = "Article" THEN Append(arts, [i |-> i, at |-> here]) ELSE arts
     /\ groups' = IF kd = "Paragraph" THEN [groups EXCEPT ![Len(groups)] = Append(@, i)]
                  ELSE IF l = 1 THEN Append(groups, <<>>) ELSE groups
     /\ toc' = IF kd = "Paragraph" THEN toc
               ELSE Append(toc, [at |-> at, article |-> IF kd = "Article" THEN NumOf(i) ELSE "", title |-> TitleText(i)])
     /\ Len(nodes) < 3 => key' = key * 7 + KeyOf(kd)
     /\ Len(nodes) = 2 => key' % Shards = Shard
     /\ Len(nodes) >= 3 => UNCHANGED key
     /\ UNCHANGED <<root, naming>>
Next == /\ Len(nodes) < MaxNodes
        /\ \E kd \in Kinds, l \in 1..Len(open) : Add(kd, l)
Spec == Init /\ [][Next]_vars

\* ------------------------------------- the same, from each place by itself
\* the last heading of each depth above node i
RECURSIVE Ups(_, _, _)
Ups(i, j, d) == IF j = 0 \/ d = 1 THEN {} ELSE IF nodes[j].d < d THEN {j} \cup Ups(i, j - 1, nodes[j].d) ELSE Ups(i, j - 1, d)
Above(i) == Ups(i, i - 1, nodes[i].d)
EnclosedBy(i, self) == [h \in DOMAIN Nowhere |->
  LET J == {j \in Above(i) \cup (IF self THEN {i} ELSE {}) : nodes[j].k = h} IN IF J = {} THEN "" ELSE nodes[Only(J)].n]
OfKind(kds) == SelectSeq([i \in 1..Len(nodes) |-> i], LAMBDA i : nodes[i].k \in kds)
ArtsRight == arts = [x \in 1..Len(OfKind({"Article"})) |-> LET i == OfKind({"Article"})[x] IN [i |-> i, at |-> EnclosedBy(i, FALSE)]]
TocRight == LET q == OfKind(Kinds \ {"Paragraph"}) IN
  /\ Len(toc) = Len(q)
  /\ \A x \in 1..Len(q) : toc[x] = [at |-> EnclosedBy(q[x], TRUE), title |-> TitleText(q[x]),
                                    article |-> IF nodes[q[x]].k = "Article" THEN nodes[q[x]].n ELSE ""]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
GroupsRight == /\ Flat(groups) = OfKind({"Paragraph"})
               /\ Len(groups) = 1 + Cardinality({i \in 1..Len(nodes) : nodes[i].d = 1 /\ nodes[i].k # "Paragraph"})
Case == [id |-> root \o ":" \o naming \o ":" \o Join([i \in 1..Len(nodes) |-> StrOf(nodes[i].d) \o nodes[i].k], ","),
         root |-> root, nodes |-> nodes, arts |-> [x \in 1..Len(arts) |-> [i |-> Own(arts[x].i), at |-> arts[x].at]], groups |-> groups, toc |-> toc]
Holds == /\ ArtsRight /\ TocRight /\ GroupsRight
         /\ OutFile = "" \/ CSVWrite("%1$s", <<ToJson(Case)>>, OutFile)
=============================================================================
