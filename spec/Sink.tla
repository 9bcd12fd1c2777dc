-------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* A document going into a writer call by call (P08).                      *)
(*                                                                         *)
(* The sink takes at most `chunk` bytes a call (0: all it is offered),     *)
(* interrupts every `intr`-th call, and at most once in a run, when `at`   *)
(* bytes have arrived, it fails -- for that call or from then on -- or     *)
(* takes nothing. The document comes in pieces of any size.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, CSV

CONSTANTS Total,      \* bytes of the document in this model
          Pieces,     \* sizes of the pieces it is written in
          Chunks, Intrs, Faults, Ats,
          Shard, Shards, OutFile

VARIABLES chunk, intr, fault, at,   \* the sink
          piece,                    \* what is left of the piece being written
          sent, arrived,            \* bytes taken from the document, bytes arrived
          calls, result             \* calls so far, "going" | "ok" | "error"
vars == <<chunk, intr, fault, at, piece, sent, arrived, calls, result>>

Init == /\ chunk \in Chunks /\ intr \in Intrs /\ fault \in Faults
        /\ at \in (IF fault = "none" THEN {0} ELSE {a \in Ats : a % Shards = Shard})
        /\ (fault = "none" => Shard = 0)
        /\ piece = 0 /\ sent = 0 /\ arrived = 0 /\ calls = 0 /\ result = "going"
Min2(a, b) == IF a < b THEN a ELSE b
NextPiece == /\ result = "going" /\ piece = 0 /\ sent < Total
             /\ \E n \in Pieces : piece' = Min2(n, Total - sent) /\ sent' = sent + piece'
             /\ UNCHANGED <<chunk, intr, fault, at, arrived, calls, result>>
Hard == fault # "none" /\ arrived >= at
Interrupted == intr # 0 /\ (calls + 1) % intr = 0
\* how much of an offer arrives: it stops short where the fault lies
Room == LET c == IF chunk = 0 THEN piece ELSE Min2(chunk, piece)
        IN IF fault # "none" /\ arrived < at THEN Min2(c, at - arrived) ELSE c
Call == /\ result = "going" /\ piece > 0
        /\ calls' = calls + 1
        /\ IF Interrupted THEN UNCHANGED <<piece, arrived, result>>      \* tried again
           ELSE IF Hard THEN result' = "error" /\ UNCHANGED <<piece, arrived>>
           ELSE arrived' = arrived + Room /\ piece' = piece - Room /\ UNCHANGED result
        /\ UNCHANGED <<chunk, intr, fault, at, sent>>
Done == /\ result = "going" /\ piece = 0 /\ sent = Total
        /\ result' = "ok"
        /\ UNCHANGED <<chunk, intr, fault, at, piece, sent, arrived, calls>>
Next == NextPiece \/ Call \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* nothing is skipped: what arrived is a beginning of the document
Beginning == arrived + piece = sent
\* success only of the whole; failure exactly when the sink failed before the end
Whole == result = "ok" => arrived = Total /\ (fault = "none" \/ at >= Total)
Failed == result = "error" => fault # "none" /\ arrived = at /\ at < Total
Ends == <>(result # "going")
\* a scenario for the real writer, once for each kind of sink
Case == [id |-> fault \o "@" \o ToString(at) \o " chunk " \o ToString(chunk) \o " intr " \o ToString(intr),
         chunk |-> chunk, intr |-> intr, fault |-> fault, at |-> at]
Holds == /\ Beginning /\ Whole /\ Failed
         /\ calls > 0 \/ sent > 0 \/ OutFile = "" \/ CSVWrite("%1$s", <<ToJson(Case)>>, OutFile)
=============================================================================
