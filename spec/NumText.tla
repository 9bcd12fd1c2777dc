------------------------------ MODULE NumText ------------------------------
(***************************************************************************)
(* The notations of provision numbers: how they are written (Render) and,  *)
(* independently of it, how they are read (Read).                          *)
(*                                                                         *)
(* Components of a number are decimal strings: TLC has 32-bit integers,    *)
(* and the attribute form goes up to 2^64 - 1.                             *)
(***************************************************************************)
EXTENDS Str, Integers

\* ---------------------------------------------------------------- numerals
KD == <<"一", "二", "三", "四", "五", "六", "七", "八", "九">>
ZD == <<"０", "１", "２", "３", "４", "５", "６", "７", "８", "９">>
IroKata == Chars("イロハニホヘトチリヌルヲワカヨタレソツネナラムウヰノオクヤマケフコエテアサキユメミシヱヒモセス")
IroHira == Chars("いろはにほへとちりぬるをわかよたれそつねならむうゐのおくやまけふこえてあさきゆめみしゑひもせす")
UpperLetters == Chars("ＡＢＣＤＥＦＧＨＩＪＫＬＭＮＯＰＱＲＳＴＵＶＷＸＹＺ")
LowerLetters == Chars("ａｂｃｄｅｆｇｈｉｊｋｌｍｎｏｐｑｒｓｔｕｖｗｘｙｚ")
IdxIn(q, c) == CHOOSE i \in 1..Len(q) : q[i] = c
In(q, c) == \E i \in 1..Len(q) : q[i] = c

KanjiPlace(d, p) == IF d = 0 THEN <<>> ELSE IF d = 1 THEN <<p>> ELSE <<KD[d], p>>
Kanji(n) == KanjiPlace((n \div 1000) % 10, "千") \o KanjiPlace((n \div 100) % 10, "百")
            \o KanjiPlace((n \div 10) % 10, "十") \o (IF n % 10 = 0 THEN <<>> ELSE <<KD[n % 10]>>)
Zen(s) == LET q == Chars(s) IN [i \in 1..Len(q) |-> ZD[DigitVal(q[i]) + 1]]
RECURSIVE LettersFrom(_, _)
LettersFrom(n, ls) == IF n = 0 THEN <<>> ELSE LettersFrom((n - 1) \div 26, ls) \o <<ls[((n - 1) % 26) + 1]>>
RomanPairs == <<<<100, <<"Ｃ">>>>, <<90, <<"Ｘ", "Ｃ">>>>, <<50, <<"Ｌ">>>>, <<40, <<"Ｘ", "Ｌ">>>>, <<10, <<"Ｘ">>>>,
                <<9, <<"Ｉ", "Ｘ">>>>, <<5, <<"Ｖ">>>>, <<4, <<"Ｉ", "Ｖ">>>>, <<1, <<"Ｉ">>>>>>
RECURSIVE RomanFrom(_, _)
RomanFrom(n, i) == IF n = 0 THEN <<>>
                   ELSE IF n >= RomanPairs[i][1] THEN RomanPairs[i][2] \o RomanFrom(n - RomanPairs[i][1], i)
                   ELSE RomanFrom(n, i + 1)
RomanU(n) == RomanFrom(n, 1)
RomanMax == 399
RomanTab == [n \in 1..RomanMax |-> RomanU(n)]
ToLower(q) == [i \in 1..Len(q) |-> LowerLetters[IdxIn(UpperLetters, q[i])]]

\* --------------------------------------------------------------- notations
Headings == {"part", "chapter", "section", "subsection", "division", "article"}
SuffixOf(f) == CASE f = "part" -> "編" [] f = "chapter" -> "章" [] f = "section" -> "節"
               [] f = "subsection" -> "款" [] f = "division" -> "目" [] f = "article" -> "条"
SuffixChars == {"編", "章", "節", "款", "目", "条", "項", "号"}
Patterns == {"Kansuji", "IrohaKatakana", "IrohaHiragana", "ZenkakuNum", "ZenkakuRomanUpper",
             "ZenkakuRomanLower", "ZenkakuUpper", "ZenkakuLower"}
Items == {"NoParen" \o p : p \in Patterns} \cup {"Paren" \o p : p \in Patterns}
PatOf(f) == IF \E p \in Patterns : f = "Paren" \o p THEN CHOOSE p \in Patterns : f = "Paren" \o p
            ELSE CHOOSE p \in Patterns : f = "NoParen" \o p
IsParen(f) == \E p \in Patterns : f = "Paren" \o p

\* the numbers a notation can write
MaxOf(f) == IF f = "attr" \/ f = "paragraph" THEN 2000000000
          ELSE IF f \in Headings THEN 9999
          ELSE LET p == PatOf(f) IN
               CASE p = "Kansuji" -> 9999 [] p = "IrohaKatakana" -> 47 [] p = "IrohaHiragana" -> 47
                 [] p = "ZenkakuNum" -> 2000000000 [] p = "ZenkakuRomanUpper" -> RomanMax
                 [] p = "ZenkakuRomanLower" -> RomanMax [] OTHER -> 2000000000
MinOf(f) == IF f = "attr" THEN 0 ELSE 1
Writes(f, s) == IF f = "attr" THEN TRUE ELSE IsNatStr(s) /\ NatOf(s) >= MinOf(f) /\ NatOf(s) <= MaxOf(f)

Token(p, s) ==
  CASE p = "Kansuji" -> Kanji(NatOf(s))
    [] p = "IrohaKatakana" -> <<IroKata[NatOf(s)]>>
    [] p = "IrohaHiragana" -> <<IroHira[NatOf(s)]>>
    [] p = "ZenkakuNum" -> Zen(s)
    [] p = "ZenkakuRomanUpper" -> RomanU(NatOf(s))
    [] p = "ZenkakuRomanLower" -> ToLower(RomanU(NatOf(s)))
    [] p = "ZenkakuUpper" -> LettersFrom(NatOf(s), UpperLetters)
    [] p = "ZenkakuLower" -> LettersFrom(NatOf(s), LowerLetters)

RECURSIVE FlatFrom(_, _)
FlatFrom(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o FlatFrom(q, i + 1)
FlatMap(Op(_), q) == FlatFrom([i \in 1..Len(q) |-> Op(q[i])], 1)
Branches(Op(_), q) == FlatMap(LAMBDA e : <<"の">> \o Op(e), q)

Render(x, f) ==
  IF f = "attr"
  THEN Chars(Join(<<x.base>> \o x.edas, "_")) \o
       (IF x.range = <<>> THEN <<>> ELSE <<":">> \o Chars(Join(x.range, "_")))
  ELSE LET Bare(s) == IF f \in Headings THEN Kanji(NatOf(s)) ELSE IF f = "paragraph" THEN Zen(s) ELSE Token(PatOf(f), s)
           Top(s) == IF f \in Headings THEN <<"第">> \o Bare(s) \o <<SuffixOf(f)>>
                      ELSE IF f = "paragraph" THEN Bare(s)
                      ELSE IF IsParen(f) THEN <<"（">> \o Bare(s) \o <<"）">> ELSE Bare(s)
       IN Top(x.base) \o Branches(Bare, x.edas) \o
          (IF x.range = <<>> THEN <<>>
           ELSE <<"か", "ら">> \o Top(x.range[1]) \o Branches(Bare, Tail(x.range)) \o <<"ま", "で">>)

\* ------------------------------------------------------------------ reading
No == [ok |-> FALSE]
RECURSIVE StripZ(_)
StripZ(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZ(SubSeq(s, 2, Len(s))) ELSE s
U64 == "18446744073709551615"
RECURSIVE LeqDigits(_, _, _)
LeqDigits(a, b, i) == IF i > Len(a) THEN TRUE
                      ELSE LET x == DigitVal(Ch(a, i)) y == DigitVal(Ch(b, i)) IN
                           IF x < y THEN TRUE ELSE IF x > y THEN FALSE ELSE LeqDigits(a, b, i + 1)
FitsU64(s) == Len(s) < Len(U64) \/ (Len(s) = Len(U64) /\ LeqDigits(s, U64, 1))
\* a run of decimal digits: its value, and whether it is written as numbers are (no leading zeros)
DecVal(ds) == LET s == Concat(ds) z == StripZ(s) IN
              IF ds = <<>> \/ ~FitsU64(z) THEN No ELSE [ok |-> TRUE, v |-> z, std |-> z = s]

\* the longest run of characters of one class starting at i
RECURSIVE RunEnd(_, _, _)
RunEnd(q, i, cl) == IF i <= Len(q) /\ In(cl, q[i]) THEN RunEnd(q, i + 1, cl) ELSE i
Run(q, i, cl) == SubSeq(q, i, RunEnd(q, i, cl) - 1)
KanjiChars == KD \o <<"十", "百", "千">>

\* kanji numeral by places: each place at most once, in descending order
RECURSIVE KanjiFrom(_, _, _, _)
KanjiFrom(q, i, lim, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET d == IF In(KD, q[i]) THEN IdxIn(KD, q[i]) ELSE 0
           j == IF d > 0 THEN i + 1 ELSE i
           p == IF j > Len(q) THEN 1
                ELSE CASE q[j] = "十" -> 10 [] q[j] = "百" -> 100 [] q[j] = "千" -> 1000 [] OTHER -> 1
       IN IF p >= lim \/ (p = 1 /\ j # Len(q) + 1) THEN 0
          ELSE KanjiFrom(q, IF p = 1 THEN j ELSE j + 1, p, acc + (IF d = 0 THEN 1 ELSE d) * p)
KanjiVal(q) == LET n == IF q = <<>> THEN 0 ELSE KanjiFrom(q, 1, 10000, 0)
               IN IF n = 0 THEN No ELSE [ok |-> TRUE, v |-> StrOf(n), std |-> Kanji(n) = q]

AsciiOf(q) == [i \in 1..Len(q) |-> StrOf(IdxIn(ZD, q[i]) - 1)]
\* a numeral (of a heading or paragraph) at position i: [ok, v, std, next]
NumAt(q, i, kanji) ==
  IF i > Len(q) THEN No
  ELSE LET r == IF In(Digits, q[i]) THEN [e |-> RunEnd(q, i, Digits), x |-> DecVal(Run(q, i, Digits))]
                ELSE IF In(ZD, q[i]) THEN [e |-> RunEnd(q, i, ZD), x |-> DecVal(AsciiOf(Run(q, i, ZD)))]
                ELSE IF kanji /\ In(KanjiChars, q[i]) THEN [e |-> RunEnd(q, i, KanjiChars), x |-> KanjiVal(Run(q, i, KanjiChars))]
                ELSE [e |-> i, x |-> No]
       IN IF r.x.ok THEN [ok |-> TRUE, v |-> r.x.v, std |-> r.x.std /\ r.x.v # "0", next |-> r.e] ELSE No
RECURSIVE BranchesAt(_, _, _, _, _)
BranchesAt(q, i, kanji, acc, std) ==
  IF i <= Len(q) /\ q[i] \in {"の", "ノ"}
  THEN LET r == NumAt(q, i + 1, kanji) IN
       IF r.ok THEN BranchesAt(q, r.next, kanji, Append(acc, r.v), std /\ r.std) ELSE No
  ELSE [ok |-> TRUE, l |-> acc, next |-> i, std |-> std]
At(q, i, c) == i <= Len(q) /\ q[i] = c
\* one end of a heading's range: 第 numeral suffix branches
HeadAt(q, i, must) ==
  LET dai == At(q, i, "第")
      r == NumAt(q, IF dai THEN i + 1 ELSE i, TRUE)
  IN IF ~r.ok \/ (must /\ ~dai) THEN No
     ELSE IF ~(r.next <= Len(q) /\ q[r.next] \in SuffixChars) THEN No
     ELSE LET b == BranchesAt(q, r.next + 1, TRUE, <<>>, TRUE)
          IN IF ~b.ok THEN No
             ELSE [ok |-> TRUE, l |-> <<r.v>> \o b.l, next |-> b.next, std |-> dai /\ r.std /\ b.std, sfx |-> q[r.next]]
ParaAt(q, i) ==
  LET r == NumAt(q, i, FALSE) IN
  IF ~r.ok THEN No
  ELSE LET b == BranchesAt(q, r.next, FALSE, <<>>, TRUE)
       IN IF ~b.ok THEN No
          ELSE [ok |-> TRUE, l |-> <<r.v>> \o b.l, next |-> b.next, std |-> r.std /\ b.std, sfx |-> ""]
Num(l, m) == [base |-> Head(l), edas |-> Tail(l), range |-> m]
\* the readings of a text: those it must have, and those it may be given
ReadEnds(q, Op(_, _)) ==
  LET a == Op(q, 1) IN
  IF ~a.ok THEN No
  ELSE IF a.next = Len(q) + 1 THEN [ok |-> TRUE, n |-> Num(a.l, <<>>), std |-> a.std]
  ELSE IF ~(At(q, a.next, "か") /\ At(q, a.next + 1, "ら")) THEN No
  ELSE LET b == Op(q, a.next + 2) IN
       IF ~b.ok THEN No
       ELSE IF b.next + 1 # Len(q) \/ q[b.next] # "ま" \/ q[b.next + 1] # "で" THEN No
       ELSE [ok |-> TRUE, n |-> Num(a.l, b.l), std |-> a.std /\ b.std /\ a.sfx = b.sfx]
ReadArticle(q) ==
  LET h == ReadEnds(q, LAMBDA x, i : HeadAt(x, i, FALSE))
      p == ReadEnds(q, ParaAt)
      r == IF h.ok THEN h ELSE p
  IN IF ~r.ok THEN [must |-> {}, may |-> {}]
     ELSE IF r.std THEN [must |-> {r.n}, may |-> {}] ELSE [must |-> {}, may |-> {r.n}]

\* attribute form
AttrPart(s) == LET q == Split(s, "_")
                   d == [i \in 1..Len(q) |-> IF \A j \in 1..Len(q[i]) : IsDigit(Ch(q[i], j)) THEN DecVal(Chars(q[i])) ELSE No]
               IN IF \E i \in 1..Len(q) : ~d[i].ok THEN No
                  ELSE [ok |-> TRUE, l |-> [i \in 1..Len(q) |-> d[i].v], std |-> \A i \in 1..Len(q) : d[i].std]
ReadAttr(q) ==
  LET p == Split(Concat(q), ":") IN
  IF Len(p) > 2 THEN [must |-> {}, may |-> {}]
  ELSE LET a == AttrPart(p[1]) b == IF Len(p) = 2 THEN AttrPart(p[2]) ELSE [ok |-> TRUE, l |-> <<>>, std |-> TRUE]
       IN IF ~(a.ok /\ b.ok) THEN [must |-> {}, may |-> {}]
          ELSE IF a.std /\ b.std THEN [must |-> {Num(a.l, b.l)}, may |-> {}]
          ELSE [must |-> {}, may |-> {Num(a.l, b.l)}]

\* item numbers: the possible readings <<pattern, value, must>> of the bare token at i, and its end
RomanReads(t) == {n \in 1..RomanMax : RomanTab[n] = t}
RECURSIVE LetterFrom(_, _, _, _)
LetterFrom(t, ls, i, acc) == IF i > Len(t) THEN acc ELSE LetterFrom(t, ls, i + 1, acc * 26 + IdxIn(ls, t[i]))
\* ("?": beyond TLC's integers, any number)
LetterVal(t, ls) == IF Len(t) > 6 THEN "?" ELSE StrOf(LetterFrom(t, ls, 1, 0))
SmallRoman == Chars("ＩＶＸ")
HasBig(t) == \E i \in 1..Len(t) : ~In(SmallRoman, t[i])
\* letters: what is a roman numeral in Ｉ, Ｖ and Ｘ is one; further ones (Ｌ, Ｃ, Ｄ, Ｍ) are ambiguous
LetterReads(t, up, U, L) ==
  LET r == RomanReads(up) v == LetterVal(t, IF U THEN UpperLetters ELSE LowerLetters)
      allroman == \A i \in 1..Len(up) : up[i] \in {"Ｉ", "Ｖ", "Ｘ", "Ｌ", "Ｃ", "Ｄ", "Ｍ"}
      ro == IF U THEN "ZenkakuRomanUpper" ELSE "ZenkakuRomanLower"
      al == IF U THEN "ZenkakuUpper" ELSE "ZenkakuLower"
  IN IF r # {} /\ ~HasBig(up) THEN {<<ro, StrOf(CHOOSE n \in r : TRUE)>>}
     ELSE {<<al, v>>} \cup {<<ro, StrOf(n)>> : n \in r}
TokAt(q, i) ==
  IF i > Len(q) THEN No
  ELSE IF In(IroKata, q[i]) THEN [ok |-> TRUE, next |-> i + 1, std |-> TRUE, r |-> {<<"IrohaKatakana", StrOf(IdxIn(IroKata, q[i]))>>}]
  ELSE IF In(IroHira, q[i]) THEN [ok |-> TRUE, next |-> i + 1, std |-> TRUE, r |-> {<<"IrohaHiragana", StrOf(IdxIn(IroHira, q[i]))>>}]
  ELSE IF In(KanjiChars, q[i]) THEN LET k == KanjiVal(Run(q, i, KanjiChars)) IN
         IF k.ok THEN [ok |-> TRUE, next |-> RunEnd(q, i, KanjiChars), std |-> k.std, r |-> {<<"Kansuji", k.v>>}] ELSE No
  ELSE IF In(ZD, q[i]) THEN LET k == DecVal(AsciiOf(Run(q, i, ZD))) IN
         IF k.ok THEN [ok |-> TRUE, next |-> RunEnd(q, i, ZD), std |-> k.std /\ k.v # "0", r |-> {<<"ZenkakuNum", k.v>>}] ELSE No
  ELSE IF In(UpperLetters, q[i]) THEN LET t == Run(q, i, UpperLetters) IN
         [ok |-> TRUE, next |-> i + Len(t), std |-> TRUE, r |-> LetterReads(t, t, TRUE, UpperLetters)]
  ELSE IF In(LowerLetters, q[i]) THEN LET t == Run(q, i, LowerLetters) IN
         [ok |-> TRUE, next |-> i + Len(t), std |-> TRUE,
          r |-> LetterReads(t, [j \in 1..Len(t) |-> UpperLetters[IdxIn(LowerLetters, t[j])]], FALSE, LowerLetters)]
  ELSE No
PTokAt(q, i) ==
  IF At(q, i, "（")
  THEN LET r == TokAt(q, i + 1) IN IF r.ok /\ At(q, r.next, "）") THEN [r EXCEPT !.next = @ + 1] @@ [paren |-> TRUE] ELSE No
  ELSE LET r == TokAt(q, i) IN IF r.ok THEN r @@ [paren |-> FALSE] ELSE No
RECURSIVE ITail(_, _, _)
ITail(q, i, acc) ==
  IF At(q, i, "の") THEN LET r == PTokAt(q, i + 1) IN IF r.ok THEN ITail(q, r.next, Append(acc, r)) ELSE No
  ELSE [ok |-> TRUE, l |-> acc, next |-> i]
IEnd(q, i) == LET a == PTokAt(q, i) IN
              IF ~a.ok THEN No
              ELSE LET b == ITail(q, a.next, <<>>) IN IF b.ok THEN [ok |-> TRUE, l |-> <<a>> \o b.l, next |-> b.next] ELSE No
\* all ways to choose one reading per token
RECURSIVE Readings(_, _)
Readings(l, i) == IF i > Len(l) THEN {<<>>} ELSE {<<c>> \o r : c \in l[i].r, r \in Readings(l, i + 1)}
ReadItem(q) ==
  LET a == IEnd(q, 1)
      rng == a.ok /\ At(q, a.next, "か") /\ At(q, a.next + 1, "ら")
      b == IF rng THEN IEnd(q, a.next + 2) ELSE No
      whole == a.ok /\ (IF rng THEN b.ok /\ b.next + 1 = Len(q) /\ q[b.next] = "ま" /\ q[b.next + 1] = "で" ELSE a.next = Len(q) + 1)
  IN IF ~whole THEN [must |-> {}, may |-> {}]
     ELSE LET toks == a.l \o (IF rng THEN b.l ELSE <<>>)
              n1 == Len(a.l)
              \* branch numbers carry no parentheses of their own; the ends agree in theirs
              shape == /\ \A i \in 1..Len(toks) : toks[i].std
                       /\ \A i \in 2..n1 : ~toks[i].paren
                       /\ \A i \in (n1 + 2)..Len(toks) : ~toks[i].paren
                       /\ rng => toks[n1 + 1].paren = toks[1].paren
              NumOf(ch) == [p |-> (IF toks[1].paren THEN "Paren" ELSE "NoParen") \o ch[1][1],
                            base |-> ch[1][2], edas |-> [i \in 1..(n1 - 1) |-> ch[i + 1][2]],
                            range |-> [i \in 1..(Len(ch) - n1) |-> ch[n1 + i][2]]]
              all == Readings(toks, 1)
              uniform == {ch \in all : \A i \in 1..Len(ch) : ch[i][1] = ch[1][1]}
          IN [must |-> IF shape THEN {NumOf(ch) : ch \in uniform} ELSE {},
              may |-> {NumOf(ch) : ch \in all}]

Read(q, f) == IF f = "attr" THEN ReadAttr(q) ELSE IF f \in Items THEN ReadItem(q) ELSE ReadArticle(q)

=============================================================================
