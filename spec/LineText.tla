------------------------------ MODULE LineText ------------------------------
(***************************************************************************)
(* One line of a law text: what it is, by its leading words (P17).         *)
(*                                                                         *)
(* Classify reads a line given as a string; the result is                  *)
(*   [k |-> kind, n |-> number, p |-> item notation, t |-> its text,       *)
(*    x |-> extract mark, loose |-> TRUE when the notation leaves the kind *)
(*    open (then nothing is claimed about the line's place)]               *)
(***************************************************************************)
EXTENDS NumText

Blanks == {" ", "　", "\t"}
RECURSIVE SkipL(_, _)
SkipL(q, i) == IF i <= Len(q) /\ q[i] \in Blanks THEN SkipL(q, i + 1) ELSE i
RECURSIVE SkipR(_, _)
SkipR(q, i) == IF i >= 1 /\ q[i] \in Blanks THEN SkipR(q, i - 1) ELSE i
TrimQ(q) == LET a == SkipL(q, 1) b == SkipR(q, Len(q)) IN SubSeq(q, a, b)
RECURSIVE WordEnd(_, _)
WordEnd(q, i) == IF i <= Len(q) /\ q[i] \notin Blanks THEN WordEnd(q, i + 1) ELSE i

NoNum == [base |-> "", edas |-> <<>>, range |-> <<>>]
Line(kind, n, p, t) == [k |-> kind, n |-> n, p |-> p, t |-> t, x |-> FALSE, loose |-> FALSE]
Loose(t) == [Line("Text", NoNum, "", t) EXCEPT !.loose = TRUE]

KindOfSuffix(c) == CASE c = "編" -> "Part" [] c = "章" -> "Chapter" [] c = "節" -> "Section" [] c = "款" -> "Subsection"
                     [] c = "目" -> "Division" [] c = "条" -> "Article" [] OTHER -> "?"
FirstSuffix(q) == LET I == {i \in 1..Len(q) : q[i] \in SuffixChars} IN
                  IF I = {} THEN "" ELSE q[CHOOSE i \in I : \A j \in I : i <= j]
Only(s) == CHOOSE x \in s : TRUE
Single(s) == s # {} /\ s = {Only(s)}

\* 附則, with the number of the amending law and the mark of an extract
SupplLine(q) ==
  IF ~At(q, 1, "附") THEN No
  ELSE LET a == SkipL(q, 2) IN
       IF ~At(q, a, "則") THEN No
       ELSE LET b == SkipL(q, a + 1)
                e == IF At(q, Len(q), "抄") /\ Len(q) >= b THEN SkipR(q, Len(q) - 1) ELSE Len(q)
                x == e # Len(q)
            IN IF b > e THEN [ok |-> TRUE, law |-> <<>>, x |-> x, loose |-> FALSE]
               ELSE IF At(q, b, "（") /\ At(q, e, "）") /\ e > b + 1
               THEN LET m == SubSeq(q, b + 1, e - 1) IN
                    [ok |-> TRUE, law |-> <<Concat(m)>>, x |-> x,
                     loose |-> (\E i \in 1..Len(m) : m[i] \in {"（", "）"}) \/ TrimQ(m) # m]
               ELSE No

Classify(s) ==
  LET q == TrimQ(Chars(s))
      t == Concat(q)
      sup == SupplLine(q)
      w == WordEnd(q, 1)
      word == SubSeq(q, 1, w - 1)
      rest == Concat(SubSeq(q, SkipL(q, w), Len(q)))
      ra == ReadArticle(word)
      ri == ReadItem(word)
      inner == SubSeq(q, 2, Len(q) - 1)
  IN IF q = <<>> THEN Line("Blank", NoNum, "", "")
     ELSE IF Len(q) > 2 /\ q[1] = "（" /\ q[Len(q)] = "）" /\ \A i \in 2..(Len(q) - 1) : q[i] # "）"
     THEN IF TrimQ(inner) = inner THEN Line("Caption", NoNum, "", Concat(inner)) ELSE Loose(t)
     ELSE IF sup.ok THEN [Line("Suppl", NoNum, "", IF sup.law = <<>> THEN "" ELSE sup.law[1])
                          EXCEPT !.x = sup.x, !.loose = sup.loose, !.p = IF sup.law = <<>> THEN "" ELSE "law"]
     ELSE IF w > Len(q) THEN Line("Text", NoNum, "", t)
     ELSE IF Single(ra.must)
     THEN LET f == FirstSuffix(word) kd == IF f = "" THEN "Paragraph" ELSE KindOfSuffix(f)
          IN IF kd = "?" THEN Loose(t) ELSE Line(kd, Only(ra.must), "", rest)
     ELSE IF ra.may # {} THEN Loose(t)
     ELSE IF Single(ri.must)
     THEN LET r == Only(ri.must) IN Line("Item", [base |-> r.base, edas |-> r.edas, range |-> r.range], r.p, rest)
     ELSE IF ri.must # {} \/ ri.may # {} THEN Loose(t)
     ELSE Line("Text", NoNum, "", t)
=============================================================================
