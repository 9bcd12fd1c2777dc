----------------------------- MODULE TextTrace -----------------------------
(***************************************************************************)
(* Recorded runs of the real text parser, judged by the specification:     *)
(* every record holds the lines of a text and what the library made of it  *)
(* (its nodes, or a refusal). The parser of TextParse steps through the    *)
(* same lines; at the end both must agree.                                 *)
(***************************************************************************)
EXTENDS TextParse, Json, CSV

CONSTANTS Mode,    \* "structure": the very same law; "words": every word and number once, in order
          InFile, Shard, Shards, OutFile
Records == ndJsonDeserialize(InFile)

VARIABLES rec, pos, law
vars == <<rec, pos, law>>
Init == /\ rec \in {i \in 1..Len(Records) : i % Shards = Shard}
        /\ pos = 0 /\ law = Empty
Next == /\ pos < Len(Records[rec].lines)
        /\ pos' = pos + 1
        /\ law' = Step(law, Classify(Records[rec].lines[pos + 1]))
        /\ UNCHANGED rec
Spec == Init /\ [][Next]_vars

Bare(nd) == [k |-> nd.k, d |-> nd.d, n |-> nd.n, t |-> nd.t, cap |-> nd.cap, ts |-> nd.ts, del |-> nd.del, x |-> nd.x]
\* ----- P15: words and numbers, whatever the structure
Some(q) == SelectSeq(q, LAMBDA x : x # "")
RECURSIVE LineWords(_, _)
LineWords(ls, i) == IF i > Len(ls) THEN <<>> ELSE <<Classify(ls[i]).t>> \o LineWords(ls, i + 1)
RECURSIVE LineNums(_, _)
LineNums(ls, i) == IF i > Len(ls) THEN <<>>
                   ELSE LET c == Classify(ls[i]) IN (IF c.n = NoNum THEN <<>> ELSE <<c.n>>) \o LineNums(ls, i + 1)
RECURSIVE NodeWords(_, _)
NodeWords(ns, i) == IF i > Len(ns) THEN <<>> ELSE ns[i].cap \o <<ns[i].t>> \o ns[i].ts \o NodeWords(ns, i + 1)
\* the first paragraph of an article, and one made for unnumbered text of a supplementary provision, have no number of their own
RECURSIVE NodeNums(_, _)
NodeNums(ns, i) == IF i > Len(ns) THEN <<>>
  ELSE (IF ns[i].k \in {"Preamble", "Suppl"} \/ (ns[i].k = "Paragraph" /\ i > 1 /\ ns[i - 1].k = "Article") THEN <<>> ELSE <<ns[i].n>>) \o NodeNums(ns, i + 1)
Numbers(r, want) ==
  LET got == NodeNums(r.nodes, 1) IN
  got = want \/ \E i \in 1..Len(r.nodes) : r.nodes[i].k = "Suppl"   \* (there a paragraph may be one of unnumbered text)
WordsKept == LET r == Records[rec] IN
  IF law.loose THEN "open" ELSE IF r.refused THEN "yes"
  ELSE IF Some(NodeWords(r.nodes, 1)) # Some(LineWords(r.lines, 1)) THEN "the words of the law are not those of the text"
  ELSE IF ~Numbers(r, LineNums(r.lines, 1)) THEN "the numbers of the law are not those of the text"
  ELSE "yes"

\* ----- P14, P17: the very same law
SameLaw == LET r == Records[rec] IN
  CASE law.loose -> "open"
    [] Refused(law) -> IF r.refused THEN "yes" ELSE "a line has no place, but the text was accepted"
    [] r.refused -> "refused"
    [] Len(r.nodes) # Len(law.nodes) -> "the law has other nodes"
    [] OTHER -> LET D == {i \in 1..Len(r.nodes) : Bare(law.nodes[i]) # r.nodes[i]} IN
                IF D = {} THEN "yes"
                ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN "node " \o ToString(i) \o " is specified " \o ToString(Bare(law.nodes[i]))
Holds == pos = Len(Records[rec].lines)
           => LET a == IF Mode = "words" THEN WordsKept ELSE SameLaw IN
              /\ a \in {"yes", "open"} \/ OutFile = "" \/ CSVWrite("%1$s", <<ToJson([id |-> Records[rec].id, detail |-> a])>>, OutFile)
              /\ a # "yes" \/ OutFile = "" \/ CSVWrite("%1$s", <<"ok">>, OutFile \o ".ok")
=============================================================================
