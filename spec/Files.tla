------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Reading a law from a path (P09): what is at the path changes over time, *)
(* and every reading is of what is there now.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, CSV

CONSTANTS Contents,     \* kinds of content
          Piped,        \* those that may come through a pipe, piece by piece
          Paths,        \* kinds of path name
          MaxOps, Shard, Shards, OutFile

VARIABLES name, place, ops, seen, key
vars == <<name, place, ops, seen, key>>
Gone == [k |-> "gone"]
Init == /\ name \in Paths /\ place = Gone /\ ops = <<>> /\ seen = <<>> /\ key = 0
Op(o) == ops' = Append(ops, o) /\ UNCHANGED <<name>>
\* what reading finds: a content, or an input error
\* (a name no file can bear stays without one)
Nameless == {"nul", "toolong", "none", "under", "loop"}
Found(p) == IF p.k \in {"file", "link", "pipe"} /\ p.c # "" THEN p.c ELSE "error"
Change ==
  \/ \E c \in Contents : place' = [k |-> "file", c |-> c] /\ Op(<<"write", c>>) /\ UNCHANGED seen
  \/ place.k = "gone" /\ \E c \in Contents \cup {""} : place' = [k |-> "link", c |-> c] /\ Op(<<"link", c>>) /\ UNCHANGED seen
  \/ place.k = "gone" /\ \E c \in Piped : place' = [k |-> "pipe", c |-> c] /\ Op(<<"pipe", c>>) /\ UNCHANGED seen
  \/ place.k = "gone" /\ place' = [k |-> "dir"] /\ Op(<<"dir", "">>) /\ UNCHANGED seen
  \/ place.k # "gone" /\ place' = Gone /\ Op(<<"remove", "">>) /\ UNCHANGED seen
\* (an IF: TLC would follow both sides of a disjunction)
TwoReads == IF Len(ops) < 2 THEN FALSE ELSE ops[Len(ops)][1] = "read" /\ ops[Len(ops) - 1][1] = "read"
Read == /\ ~TwoReads                         \* at most twice in a row
        /\ seen' = Append(seen, Found(place)) /\ Op(<<"read", "">>) /\ UNCHANGED place
\* writing goes to a file or nothing (a link or directory is removed first)
Change2 == name \notin Nameless /\ Change /\ (ops'[Len(ops')][1] = "write" => place.k \in {"gone", "file"})
Spread(o) == Len(o[1]) * 3 + Len(o[2]) * 5
Next == /\ Len(ops) < MaxOps
        /\ Change2 \/ Read
        /\ key' = IF Len(ops) < 2 THEN key * 31 + Spread(ops'[Len(ops')]) ELSE key
        /\ Len(ops) = 1 => key' % Shards = Shard
Spec == Init /\ [][Next]_vars
\* two readings with nothing between agree
Repeatable == \A i \in 2..Len(ops) : (ops[i][1] = "read" /\ ops[i - 1][1] = "read") =>
                LET n == Len(SelectSeq(SubSeq(ops, 1, i), LAMBDA o : o[1] = "read")) IN seen[n] = seen[n - 1]
Case == [id |-> name \o ":" \o ToString(ops), name |-> name, ops |-> ops, seen |-> seen]
Holds == /\ Repeatable
         /\ ops = <<>> \/ ops[Len(ops)][1] # "read" \/ OutFile = "" \/ CSVWrite("%1$s", <<ToJson(Case)>>, OutFile)
=============================================================================
