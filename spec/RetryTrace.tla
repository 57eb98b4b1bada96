------------------------------- MODULE RetryTrace -----------------------------
(* Recorded calls of the process function of the real controller.            *)
EXTENDS Retry, DetTrace
BInit(cfg) == [m |-> RetryInit, retry |-> cfg.retry,
               anyfail |-> FALSE, told |-> 0, started |-> FALSE, over |-> FALSE, stopped |-> FALSE]
Set(q) == {q[i] : i \in 1..Len(q)}
C(v) == IF v = "" THEN "" ELSE "C28:" \o v
BVerdict(s, e) ==
  CASE e.k \in {"list", "listed", "watch", "opened", "we", "wend", "close", "stop"} -> ""
    [] e.k = "before" -> IF e.synced \/ e.rv # "" THEN "C28:synced before the start" ELSE ""
    [] e.k = "start" -> IF s.started THEN "C28:driver" ELSE ""
    [] e.k = "h" -> IF s.over THEN "C28:process called after the end" ELSE C(HandOk(s.m, e.key, e.b))
    [] e.k = "he" -> IF s.m.busy = "" THEN "C28:driver" ELSE ""
    [] e.k = "idle" ->   \* nothing left to run now: what failed has been handed out again, unless one is at work
         IF s.started /\ ~s.over /\ s.m.busy = "" /\ s.m.owed # << >> THEN "C28:failed batch not retried" ELSE ""
    [] e.k = "quiet" ->
         IF ~e.synced THEN "C28:never synced"
         ELSE IF e.rv # ToString(s.told) THEN "C28:last version seen"
         ELSE IF s.m.busy # "" \/ s.m.owed # << >> THEN "C28:failed batch not retried"
         ELSE IF (s.retry \/ ~s.anyfail) /\ Set(e.srv) # Set(e.seen) THEN "C28:change lost"
         ELSE ""
    [] e.k = "ended" -> IF s.stopped /\ e.r = "cancelled" THEN "" ELSE "C28:ended by itself"
    [] e.k = "left" -> IF e.n = 0 /\ e.open = 0 /\ e.closed THEN "" ELSE "C28:left behind"
    [] e.k = "fin" -> IF s.over THEN "" ELSE "C28:did not end"
    [] OTHER -> "C28:" \o e.k
BStep(s, e) ==
  CASE e.k = "start" -> [s EXCEPT !.started = TRUE]
    [] e.k = "h" -> [s EXCEPT !.m = Hand(@, e.key, e.b)]
    [] e.k = "he" -> [s EXCEPT !.m = Finish(@, e.r, s.retry, Set(e.wait)), !.anyfail = @ \/ e.r = "fail"]
    [] e.k = "listed" -> IF e.ok THEN [s EXCEPT !.m = Listed(@), !.told = e.rv] ELSE s
    [] e.k = "we" -> IF e.ty = "ERROR" THEN s ELSE [s EXCEPT !.told = e.v]
    [] e.k = "stop" -> [s EXCEPT !.stopped = TRUE]
    [] e.k = "ended" -> [s EXCEPT !.over = TRUE]
    [] OTHER -> s
===============================================================================
