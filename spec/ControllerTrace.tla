--------------------------- MODULE ControllerTrace ---------------------------
(* Recorded runs of the real controller with a scripted reconciler.         *)
EXTENDS Controller, DetTrace

KInit(cfg) == [CInit0(1..cfg.keys, cfg.workers) EXCEPT !.started = FALSE] @@ [chk |-> cfg.chk]
Say(s, v) == IF v = "" THEN "" ELSE s.chk \o ":" \o v

KVerdict(s, e) == Say(s,
  CASE e.k = "rs" -> StartVerdict(s, e.key, e.t)
    [] e.k = "idle" -> IF s.stopped /\ ~s.over /\ s.run = {} THEN "did not finish" ELSE IdleVerdict(s, e.t)
    [] e.k = "ended" -> IF ~s.stopped THEN "ended by itself"
                        ELSE IF e.r # "cancelled" THEN "ended without cancellation"
                        ELSE IF s.run # {} THEN "left a reconcile running"
                        ELSE IF ~e.shut THEN "queue not shut down" ELSE ""
    [] e.k = "left" -> IF e.n # 0 THEN "left tasks running" ELSE ""
    [] e.k \in {"add", "added", "junk", "re", "start", "stop", "fin"} -> ""
    [] OTHER -> e.k)

KStep(s, e) ==
  CASE e.k = "add" -> Arriving(s, e.key)
    [] e.k = "added" -> Arrived(s, e.key)
    [] e.k = "rs" -> Started(s, e.key, e.t)
    [] e.k = "re" -> Ended(s, e.key, e.r, e.d, e.t)
    [] e.k = "start" -> [s EXCEPT !.started = TRUE]
    [] e.k = "stop" -> [s EXCEPT !.stopped = TRUE]
    [] e.k = "ended" -> [s EXCEPT !.over = TRUE, !.stopped = TRUE]
    [] OTHER -> s
=============================================================================
