----------------------------- MODULE TextParse -----------------------------
(***************************************************************************)
(* The line-by-line parser of law texts: a state and one step per line     *)
(* (P14, P15, P16).                                                        *)
(*                                                                         *)
(*   nodes  the law's nodes so far in text order, each with its depth      *)
(*   open   the containers still open, outermost first                     *)
(*   pend   a caption waiting for the article or paragraph it belongs to   *)
(*   bad    a line had no place: the text is refused                       *)
(*   pre    nothing but preamble so far                                    *)
(*   loose  some line's kind is left open by the notation                  *)
(***************************************************************************)
EXTENDS LineText

\* ---------------------------------------------------------------- the parser
Headings5 == <<"Part", "Chapter", "Section", "Subsection", "Division">>
IsHeading(kd) == In(Headings5, kd)
Contains(c, kd) ==
  CASE c = "Main" -> kd \in {"Part", "Chapter", "Section", "Article", "Paragraph"}
    [] c = "Suppl" -> kd \in {"Chapter", "Article", "Paragraph"}
    [] c = "Part" -> kd \in {"Chapter", "Article"}
    [] c = "Chapter" -> kd \in {"Section", "Article"}
    [] c = "Section" -> kd \in {"Subsection", "Division", "Article"}
    [] c = "Subsection" -> kd \in {"Division", "Article"}
    [] c = "Division" -> kd = "Article"
    [] c = "Article" -> kd = "Paragraph"
    [] OTHER -> FALSE
MaxItemDepth == 11     \* Item, Subitem1 .. Subitem10

Empty == [nodes |-> <<>>, open |-> <<[k |-> "Main", p |-> "", at |-> 0, last |-> ""]>>, pend |-> <<>>, bad |-> FALSE, pre |-> TRUE, loose |-> FALSE]
Top(s) == s.open[Len(s.open)]
Front1(q) == SubSeq(q, 1, Len(q) - 1)
Bad(s) == [s EXCEPT !.bad = TRUE]
\* close containers until one may hold the new line
RECURSIVE Pop(_, _)
Pop(op, kd) == IF op = <<>> THEN <<>> ELSE IF Contains(op[Len(op)].k, kd) THEN op ELSE Pop(Front1(op), kd)
Gone(t) == t \in {"削除", "（削除）"}
Node(kd, d, n, t, cap, ts) == [k |-> kd, d |-> d, n |-> n, t |-> t, cap |-> cap, ts |-> ts, imp |-> FALSE, del |-> FALSE, x |-> FALSE]
\* add a node under the open containers op and open it
Put(s, op, nd, p, last) ==
  [s EXCEPT !.nodes = Append(@, nd), !.pend = <<>>, !.pre = FALSE,
            !.open = Append(op, [k |-> nd.k, p |-> p, at |-> Len(s.nodes) + 1, last |-> last])]
One == [base |-> "1", edas |-> <<>>, range |-> <<>>]

ItemLevel(op, p) == LET I == {i \in 1..Len(op) : op[i].k = "Item" /\ op[i].p = p} IN IF I = {} THEN 0 ELSE Only(I)
ItemsOpen(op) == {i \in 1..Len(op) : op[i].k = "Item"}
RECURSIVE CountItems(_, _)
CountItems(op, i) == IF i = 0 THEN 0 ELSE (IF op[i].k = "Item" THEN 1 ELSE 0) + CountItems(op, i - 1)

Step(s0, c) ==
  LET s == [s0 EXCEPT !.loose = @ \/ c.loose] IN
  IF s.bad \/ c.k = "Blank" THEN s
  ELSE IF c.k = "Caption" THEN IF s.pend # <<>> THEN Bad(s) ELSE [s EXCEPT !.pend = <<c.t>>, !.pre = FALSE]
  ELSE IF IsHeading(c.k) THEN
    LET op == Pop(s.open, c.k) IN
    IF s.pend # <<>> \/ op = <<>> THEN Bad(s)
    ELSE Put(s, op, [Node(c.k, Len(op), c.n, c.t, <<>>, <<>>) EXCEPT !.del = Gone(c.t)], "", "")
  ELSE IF c.k = "Article" THEN
    LET op == Pop(s.open, "Article")
        a == Put(s, op, [Node("Article", Len(op), c.n, "", s.pend, <<>>) EXCEPT !.del = Gone(c.t)], "", "")
    IN Put(a, a.open, [Node("Paragraph", Len(a.open), One, "", <<>>, <<c.t>>) EXCEPT !.imp = TRUE], "", "")
  ELSE IF c.k = "Paragraph" THEN
    LET op == Pop(s.open, "Paragraph") IN Put(s, op, Node("Paragraph", Len(op), c.n, "", s.pend, <<c.t>>), "", "")
  ELSE IF c.k = "Item" THEN
    LET l == ItemLevel(s.open, c.p)
        op == IF l > 0 THEN SubSeq(s.open, 1, l - 1) ELSE s.open
        ok == s.pend = <<>> /\ Top(s).k \in {"Paragraph", "Item"} /\ CountItems(op, Len(op)) < MaxItemDepth
    IN IF ~ok THEN Bad(s)
       ELSE Put(s, op, [Node("Item", Len(op), c.n, "", <<>>, <<c.t>>) EXCEPT !.del = Gone(c.t)], c.p, c.n.base)
  ELSE IF c.k = "Suppl" THEN
    IF s.pend # <<>> THEN Bad(s)
    ELSE Put(s, <<>>, [Node("Suppl", 0, NoNum, c.t, <<>>, <<>>) EXCEPT !.x = c.x, !.imp = c.p = "law"], "", "")
  ELSE \* Text
    IF s.pre THEN [s EXCEPT !.nodes = Append(@, Node("Preamble", 0, [One EXCEPT !.base = StrOf(Len(s.nodes) + 1)], "", <<>>, <<c.t>>))]
    ELSE IF s.pend = <<>> /\ Top(s).k \in {"Paragraph", "Item"} THEN [s EXCEPT !.nodes[Top(s).at].ts = Append(@, c.t)]
    ELSE IF Top(s).k = "Suppl" /\ Top(s).at = Len(s.nodes)
    THEN Put(s, s.open, [Node("Paragraph", Len(s.open), One, "", s.pend, <<c.t>>) EXCEPT !.imp = TRUE], "", "")
    ELSE Bad(s)
Refused(s) == s.bad \/ s.pend # <<>>
=============================================================================
