---------------------------- MODULE BroadcastTrace ---------------------------
(* Recorded uses of the real Broadcaster. Requests that may stay blocked    *)
(* are recorded as env events when made and when answered.                  *)
EXTENDS Broadcast, LinTrace

TBInit(cfg) == BInit(cfg.drop) @@ [stopping |-> {}, owed |-> {}]
Plain(s) == s
TBEnv(s, e) ==
  CASE e.op = "act" -> {Request(s, e.id, [k |-> "ev", n |-> e.n, id |-> 0, cap |-> 0, pre |-> << >>])}
    [] e.op = "watch" -> {Request(s, e.id, [k |-> "watch", n |-> 0, id |-> 0, cap |-> e.cap, pre |-> e.pre])}
    [] e.op = "shut" -> {Request(s, e.id, [k |-> "shut", n |-> 0, id |-> 0, cap |-> 0, pre |-> << >>])}
    [] e.op = "answered" -> IF e.id \in s.ack THEN {[s EXCEPT !.ack = @ \ {e.id}]} ELSE {}
    [] e.op = "stop" -> {[StopW(s, e.w) EXCEPT !.stopping = @ \cup {e.id}]}
    [] e.op = "stopped" -> IF e.id \in s.stopping THEN {[s EXCEPT !.stopping = @ \ {e.id}]} ELSE {}
    [] OTHER -> {}
TBApply(s, c) ==
  LET w == s.w[c.w] IN
  IF c.op # "next" THEN {}
  ELSE (IF CanRead(w) THEN {[st |-> ReadOne(s, c.w), res |-> Head(w.buf)]} ELSE {})
       \cup (IF Ends(w) THEN {[st |-> s, res |-> 0]} ELSE {})
TBInternal(s) == Steps(s)
TBQuiet(s) == Settled(s) /\ s.ack = {} /\ (s.stopping = {} \/ Blocked(s) \/ s.shut)
TBProbe(s, e) == FALSE
TBCancel(s, c) == IF c.op = "next" THEN {CancelRead(s, c.w)} ELSE {}
TBDue(s) == {}
TBSetNow(s, t) == s
=============================================================================
