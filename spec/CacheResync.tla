----------------------------- MODULE CacheResync ------------------------------
(***************************************************************************)
(* Repeated updates in the informers of the manager's cache (C15).  The    *)
(* cache is made with one resync period R (ten hours unless said           *)
(* otherwise).  Every informer draws its own period P from 0.9 R .. 1.1 R, *)
(* so that they do not all resync at once, and a handler registered        *)
(* without a period of its own gets every object of the store again every  *)
(* P; with R = 0 nothing is ever repeated.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slack   \* how late timers and delivery may be, in units of the recorded time

Lo(R) == (R * 9) \div 10 - 1
Hi(R) == (R * 11) \div 10 + 1 + Slack

(* A handler: what it knows (key -> version), since when it is owed        *)
(* repeats, whether a whole period must pass first, the time of its last   *)
(* round, what that round owes it and what it was told again in it.        *)
NewHandler(ty, t) == [ty |-> ty, known |-> << >>, from |-> t, whole |-> TRUE,
                      last |-> -1, want |-> {}, round |-> {}]

See(h, key, v, t) ==
  LET k == [x \in DOMAIN h.known \cup {key} |-> IF x = key THEN v ELSE h.known[x]] IN
  IF DOMAIN h.known = {} /\ (h.last >= 0 \/ t - h.from > 1024)
  THEN [h EXCEPT !.known = k, !.from = t, !.whole = FALSE, !.last = -1, !.want = {}, !.round = {}]
  ELSE [h EXCEPT !.known = k]
Forget(h, key) == [h EXCEPT !.known = [x \in DOMAIN h.known \ {key} |-> h.known[x]], !.want = @ \ {key}]

(* A repeat at time t belongs to the round going on or starts the next.    *)
(* P: the informer's period as far as it is known (0: not yet).            *)
InRound(h, t) == h.last >= 0 /\ t - h.last <= Slack
Due(h, t, R, P) ==
  IF h.last < 0 THEN ~h.whole \/ t - h.from >= Lo(R)
  ELSE LET g == t - h.last IN g >= Lo(R) /\ g <= Hi(R) /\ (P = 0 \/ (g - P <= Slack /\ P - g <= Slack))
Complete(h) == h.want \subseteq h.round
(* the first round may take two periods: the informer's timer and the      *)
(* handler's own due time start at different moments                       *)
Overdue(h, t, R) == DOMAIN h.known # {} /\ IF h.last < 0 THEN t - h.from > 2 * Hi(R) ELSE t - h.last > Hi(R)
Again(h, key, t) ==
  IF InRound(h, t) THEN [h EXCEPT !.round = @ \cup {key}]
  ELSE [h EXCEPT !.last = t, !.want = DOMAIN h.known, !.round = {key}]
===============================================================================
