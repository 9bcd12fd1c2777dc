----------------------------- MODULE WalkText ------------------------------
(***************************************************************************)
(* The plain text of paragraphs and their items, with its place (P22).     *)
(*                                                                         *)
(* A behaviour grows paragraphs, items and sub-items in document order,    *)
(* each with sentences, columns or a table; the reader's list grows along, *)
(* one entry for each, at the numbers that lead there.                     *)
(***************************************************************************)
EXTENDS TextParse, Json, CSV

CONSTANTS Chain,       \* depth of the first nodes: a chain 0, 1, .., Chain
          ChainBody,   \* what they hold
          Bodies, MaxNodes, Shard, Shards, OutFile

MaxDepth == 11         \* 0 paragraph, 1 item, 2.. sub-items 1..10
\* ------------------------------------------------------------ what is held
T(s) == [e |-> "text", s |-> s, in |-> <<>>]
E(e, s) == [e |-> e, s |-> s, in |-> <<>>]
C(e, in) == [e |-> e, s |-> "", in |-> in]
RECURSIVE InlineText(_)
InlineText(q) == IF q = <<>> THEN "" ELSE
  LET x == Head(q) IN
  (CASE x.e = "text" -> x.s
     [] x.e = "ruby" -> x.s               \* the base text
     [] x.e = "line" -> ""
     [] x.e = "sup" -> "^{" \o x.s \o "}"
     [] x.e = "sub" -> "_{" \o x.s \o "}"
     [] OTHER -> InlineText(x.in)) \o InlineText(Tail(q))
Rich(m) == <<T("前" \o m), E("ruby", "漢" \o m), E("sup", m), T("中"), E("line", "線" \o m), E("sub", "n" \o m), T("後")>>
Maths(m) == <<C("arith", <<T("x"), E("sup", m), E("sub", m), T("＋"), E("ruby", "和" \o m)>>), T("は"), C("quote", <<T("引用" \o m), E("sub", "1")>>), T("。")>>
Nested(m) == <<T("引" \o m), C("quote", <<C("sentence", <<T("甲"), E("sup", m), C("arith", <<T("y"), E("sub", m)>>)>>), E("line", "線"), C("sentence", <<T("乙" \o m)>>),
               C("arith", <<T("z"), C("quote", <<T("丙"), C("sentence", <<E("ruby", "丁")>>)>>)>>), C("quote", <<T("戊")>>)>>), T("末")>>
\* [s: sentences] [c: columns, each of sentences] [h, r: a table's header and rows]
Body(b, m) ==
  LET no == [s |-> <<>>, c |-> <<>>, h |-> <<>>, r |-> <<>>, k |-> b] IN
  CASE b = "s1" -> [no EXCEPT !.s = <<<<T("文" \o m)>>>>]
    [] b = "s0" -> no
    [] b = "s3" -> [no EXCEPT !.s = <<<<T("文" \o m)>>, <<>>, <<T("但書" \o m)>>>>]
    [] b = "rich" -> [no EXCEPT !.s = <<Rich(m), Maths(m)>>]
    [] b = "q2" -> [no EXCEPT !.s = <<Nested(m)>>]
    [] b = "c1" -> [no EXCEPT !.c = <<<<<<T("欄" \o m)>>>>>>]
    [] b = "c3" -> [no EXCEPT !.c = <<<<<<T("欄" \o m)>>, Rich(m)>>, <<>>, <<<<T("末欄")>>>>>>]
    [] b = "t0" -> no
    [] b = "t1" -> [no EXCEPT !.r = <<<<<<[e |-> "sentence", in |-> Rich(m)]>>>>>>]
    [] b = "t9" -> [no EXCEPT !.h = <<<<<<T("頭" \o m)>>, <<T("頭"), E("ruby", "漢"), E("sup", m), E("sub", "n"), E("line", "線")>>>>, <<<<T("次")>>>>>>,
                              !.r = <<<<<<[e |-> "sentence", in |-> <<T("甲" \o m)>>], [e |-> "sentence", in |-> Maths(m)]>>, <<[e |-> "column", in |-> <<T("乙" \o m)>>]>>>>,
                                      <<<<[e |-> "string", in |-> <<T("丙" \o m)>>]>>, <<>>>>, <<>>>>]
RECURSIVE Each(_, _)
JoinSeq(q, sep) == IF q = <<>> THEN "" ELSE Join(q, sep)
Each(q, i) == IF i > Len(q) THEN "" ELSE InlineText(q[i]) \o Each(q, i + 1)
RECURSIVE CellText(_)
CellText(q) == IF q = <<>> THEN "" ELSE InlineText(Head(q).in) \o CellText(Tail(q))
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
BodyText(b) ==
  CASE b.k \in {"c1", "c3"} -> LET q == Cat(b.c) IN JoinSeq([i \in 1..Len(q) |-> InlineText(q[i])], " ")
    [] b.k \in {"t0", "t1", "t9"} ->
         JoinSeq([i \in 1..Len(b.h) |-> Each(b.h[i], 1)], " ") \o "\n"
         \o JoinSeq([i \in 1..Len(b.r) |-> JoinSeq([j \in 1..Len(b.r[i]) |-> CellText(b.r[i][j])], " ")], "\n")
    [] OTHER -> Each(b.s, 1)

\* ---------------------------------------------------------------- the walk
VARIABLES nodes, path, out, key
vars == <<nodes, path, out, key>>
NumOf(i, kind) == LET s == StrOf(i) IN
  CASE kind = "none" -> "" [] kind = "same" -> "1" [] i % 3 = 0 -> s \o "_2" [] i % 3 = 1 -> s [] OTHER -> s \o ":" \o StrOf(i + 1)
Put1(s, d, b, numbering) ==
  LET i == Len(s.nodes) + 1
      n == NumOf(i, numbering)
      m == IF numbering = "same" THEN "1" ELSE StrOf(i)
      p == Append(SubSeq(s.path, 1, d), n)
  IN [nodes |-> Append(s.nodes, [d |-> d, n |-> n, body |-> Body(b, m)]), path |-> p,
      out |-> Append(s.out, [p |-> p[1], items |-> SubSeq(p, 2, Len(p)), text |-> BodyText(Body(b, m))])]
RECURSIVE Chained(_, _)
Chained(s, d) == IF d > Chain THEN s ELSE Chained(Put1(s, d, IF d = 0 THEN "s1" ELSE ChainBody, "all"), d + 1)
Init == /\ LET s == Chained([nodes |-> <<>>, path |-> <<>>, out |-> <<>>], 0) IN nodes = s.nodes /\ path = s.path /\ out = s.out
        /\ key = 0
BodySeq == <<"s1", "s0", "s3", "rich", "q2", "c1", "c3", "t0", "t1", "t9">>
Next == LET grown == Len(nodes) - (Chain + 1) IN
        /\ grown < MaxNodes
        /\ \E d \in 0..(IF Len(path) > MaxDepth THEN MaxDepth ELSE Len(path)), bi \in 1..Len(BodySeq), nn \in {"all", "none", "same"} :
             LET b == BodySeq[bi]
                 s == Put1([nodes |-> nodes, path |-> path, out |-> out], d, b, nn) IN
             /\ b \in Bodies
             /\ d = 0 => b \in {"s0", "s1", "s3", "rich", "q2"} /\ nn # "none"
             /\ nodes' = s.nodes /\ path' = s.path /\ out' = s.out
             /\ grown = 0 => (bi + d * 3) % Shards = Shard
             /\ UNCHANGED key
Spec == Init /\ [][Next]_vars

\* every paragraph, item and sub-item once, in order; each place has the numbers of what encloses it
Above(i, d) == CHOOSE j \in 1..i : nodes[j].d = d /\ \A h \in 1..i : (nodes[h].d <= d /\ h > j) => FALSE
Placed == /\ Len(out) = Len(nodes)
          /\ \A i \in 1..Len(nodes) :
               <<out[i].p>> \o out[i].items = [d \in 1..(nodes[i].d + 1) |-> nodes[Above(i, d - 1)].n]
Case == [id |-> StrOf(Chain) \o ":" \o Join([i \in 1..Len(nodes) |-> StrOf(nodes[i].d) \o nodes[i].body.k \o nodes[i].n], ","),
         nodes |-> nodes, out |-> out, text |-> Join([i \in 1..Len(out) |-> out[i].text], "\n")]
Holds == Placed /\ (OutFile = "" \/ CSVWrite("%1$s", <<ToJson(Case)>>, OutFile))
=============================================================================
