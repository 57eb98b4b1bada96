--------------------------------- MODULE Retry --------------------------------
(***************************************************************************)
(* The controller made from a configuration (C28): it takes batches of     *)
(* changes from its queue and hands each to the process function.  A batch *)
(* that fails goes to the back of the queue when the configuration says so *)
(* (or the process function asks for it) before anything else is queued,   *)
(* and is forgotten otherwise.                                             *)
(*                                                                         *)
(* A batch is a sequence of changes [op, v]; the state below is what a     *)
(* user of the controller can tell from the calls of its process function. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NoBatch == << >>
RetryInit == [busy |-> "", batch |-> NoBatch,
              owed |-> << >>,      \* failed batches to be handed out again, oldest failure first
              dropped |-> << >>,   \* what was given up without a retry, per key: [key, v]
              failed |-> FALSE]
LastV(b) == b[Len(b)].v
OwedAt(s, k) == {i \in 1..Len(s.owed) : s.owed[i].key = k}
(* What may come for a key whose batch o failed: that batch again, possibly  *)
(* with later changes after it.  Two deletions in a row are told as one.     *)
SameChange(x, y) == x = y \/ (x.op = "Deleted" /\ y.op = "Deleted")
Again(o, b) == /\ Len(o) <= Len(b)
               /\ \A i \in 1..Len(o) : IF i < Len(o) THEN o[i] = b[i] ELSE SameChange(o[i], b[i])

(* the clause a call of the process function breaks, or "" *)
HandOk(s, k, b) ==
  IF s.busy # "" THEN "two at once"
  ELSE IF b = NoBatch THEN "empty batch"
  ELSE IF OwedAt(s, k) # {} /\ OwedAt(s, k) # {1} THEN "failed batch not at the back of the queue"
  ELSE IF OwedAt(s, k) = {1} /\ ~Again(s.owed[1].b, b) THEN "failed batch not handed out again"
  ELSE IF OwedAt(s, k) = {1} /\ s.owed[1].ahead # {} THEN "failed batch ahead of what was waiting"
  ELSE IF \E i \in 1..Len(s.dropped) : s.dropped[i].key = k /\ b[1].op # "Sync" /\ b[1].v <= s.dropped[i].v THEN "failed batch handed out again"
  ELSE ""
Hand(s, k, b) ==
  LET rest == SelectSeq(s.owed, LAMBDA o : o.key # k) IN
  [s EXCEPT !.busy = k, !.batch = b,
            !.owed = [i \in 1..Len(rest) |-> [rest[i] EXCEPT !.ahead = @ \ {k}]]]
Finish(s, r, retry, waiting) ==   \* waiting: the keys with changes in the queue; r: "ok", "fail", "requeue" (asked for by the process function), "cancelled"
  LET k == s.busy  b == s.batch
      t == [s EXCEPT !.busy = "", !.batch = NoBatch] IN
  IF r = "ok" \/ r = "cancelled" THEN t
  ELSE IF r = "requeue" \/ retry THEN [t EXCEPT !.owed = Append(@, [key |-> k, b |-> b, ahead |-> waiting \ {k}])]
  ELSE [t EXCEPT !.failed = TRUE, !.dropped = Append(@, [key |-> k, v |-> LastV(b)])]
(* a new list: everything in it is handed out (again) *)
Listed(s) == [s EXCEPT !.dropped = << >>]
===============================================================================
