----------------------------- MODULE LawJudge -----------------------------
(***************************************************************************)
(* Documents that come from elsewhere -- real laws, what the library wrote *)
(* for a law text, documents edited at random -- judged by the             *)
(* specification: whether each is a law at all, what it says, and how that *)
(* is written. (The documents of LawDocs and LawRandom are legal, or       *)
(* injured in one place, by construction; these are whatever they are.)    *)
(***************************************************************************)
EXTENDS LawSchema, Json, CSV

CONSTANTS InFile,           \* InFile.0, InFile.1, ...: one document per line
          Shard, Shards, OutFile
Docs == ndJsonDeserialize(InFile \o "." \o ToString(Shard))

VARIABLE doc
Init == doc \in 1..Len(Docs)
Next == FALSE /\ UNCHANGED doc
Spec == Init /\ [][Next]_doc

\* ----- where the specification leaves something open
\* numbers written otherwise than with up to nine digits
RECURSIVE Run(_, _, _)
Run(s, i, n) == IF i > Len(s) THEN FALSE ELSE IF ~IsDigit(Ch(s, i)) THEN Run(s, i + 1, 0) ELSE n = 9 \/ Run(s, i + 1, n + 1)
OddNum(s) == Run(s, 1, 0) \/ \E i \in 1..Len(s) : Ch(s, i) = "+"
\* an attribute nobody knows; a layout hint nobody knows
Knows(t, name) == \E i \in 1..Len(Def[t].attrs) : Def[t].attrs[i].n = name
AttrD(t, name) == Def[t].attrs[CHOOSE i \in 1..Len(Def[t].attrs) : Def[t].attrs[i].n = name]
Foreign(n) == \E i \in 1..Len(n.a) : ~Knows(n.t, n.a[i][1])
Hinted(n) == \E i \in 1..Len(n.a) :
  Knows(n.t, n.a[i][1]) /\ LET d == AttrD(n.t, n.a[i][1]) IN
    IF IsEnum(d.k) THEN ~StrictEnum(d.k) /\ ~KindOk(d.k, n.a[i][2]) ELSE d.k \in {"usize", "artnum", "artnumopt"} /\ OddNum(n.a[i][2])
\* text where only elements may stand
Stray(n) == Def[n.t].k \in {"rec", "struct", "vec", "seqvar", "single", "soct"} /\ \E i \in 1..Len(n.c) : IsTx(n.c[i]) /\ ~IsBlank(n.c[i].x)
\* children in another order than the schema's: whether that is accepted is left open, but not what it then says
SlotOf(d, t) == LET I == {i \in 1..Len(d.slots) : SlotHas(d.slots[i], t)} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Disorder(n) == Def[n.t].k = "rec" /\ LET q == ElKids(n) IN \E i \in 2..Len(q) : SlotOf(Def[n.t], q[i].t) < SlotOf(Def[n.t], q[i - 1].t)
\* a title that follows its table or figure belongs to nothing
LateTitle(n) == Def[n.t].k = "struct" /\ LET q == ElKids(n) IN
  \E i \in 2..Len(q) : q[i].t = n.t \o "Title"
RECURSIVE Some(_, _)
Some(P(_), n) == IsEl(n) /\ ((n.t \in Tags /\ P(n)) \/ \E i \in 1..Len(n.c) : Some(P, n.c[i]))

Prefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* a child too many: refused by the specification, and known not to be by the library
TooMany(e) == Prefix(e, "repeated ") \/ e = "sentence of AmendProvisionSentence"
Parsed(n) == IF n.t # "Law" THEN Err("not a Law") ELSE Parse(n)
Verdict(n, r) ==
  CASE Some(Hinted, n) \/ Some(LateTitle, n) -> "open"
    [] ~r.ok -> IF TooMany(r.e) THEN "open" ELSE "err"
    [] Some(Foreign, n) \/ Some(Stray, n) \/ Some(Disorder, n) -> "either"    \* if it is accepted, this is what it says
    [] OTHER -> "ok"

Say(what) == PrintT(<<"INVARIANT FAILS", what, Docs[doc].id>>) /\ FALSE
Holds ==
  LET n == Docs[doc].tree
      r == TLCEval(Parsed(n))
      k == Verdict(n, r)
      o == IF r.ok THEN TLCEval(Emit("Law", r.v)) ELSE [none |-> 0]
  IN /\ r.ok => (LET p == Parse(o) IN p.ok /\ p.v = r.v) \/ Say("RoundTrip")
     /\ OutFile = "" \/ CSVWrite("%1$s", <<ToJson([id |-> Docs[doc].id, focus |-> k, kind |-> k, style |-> "", inj |-> "judged", tree |-> n,
          why |-> IF r.ok THEN "" ELSE r.e, v |-> IF r.ok THEN r.v ELSE [none |-> 0], out |-> o])>>, OutFile)
=============================================================================
