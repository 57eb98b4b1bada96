---------------------------- MODULE SuperviseTrace ----------------------------
(* Recorded managers with parts that fail.                                     *)
EXTENDS Supervise, DetTrace
VInit(cfg) == [s |-> SupInit(cfg.n), synced |-> FALSE, since |-> 0, types |-> cfg.types, listed |-> {}]
VVerdict(x, e) ==
  LET s == x.s IN
  CASE e.k = "mstart" -> IF s.ph = "new" THEN "" ELSE "C22:driver"
    [] e.k = "ps" -> IF ~MayStart(s, e.i) \/ (Stopping(s) /\ e.t > x.since) THEN "C22:part started when it should not"
                     ELSE IF \E i \in 1..Len(x.types) : x.types[i] \notin x.listed THEN "C22:part started before the cache synced"
                     ELSE ""
    [] e.k = "pe" -> IF ~MayEndPart(s, e.i, e.how) THEN "C22:part stopped without a reason"
                     ELSE IF ~e.shut THEN "C22:work queue not shut down" ELSE ""
    [] e.k = "work" -> IF s.part[e.i] = "run" THEN "" ELSE "C22:reconciler called after the end"
    [] e.k = "ended" -> IF MayEnd(s, e.r) THEN ""
                        ELSE IF Running(s) # {} THEN "C22:ended before its parts"
                        ELSE IF ~Stopping(s) THEN "C22:ended by itself" ELSE "C22:ended with something else than the failure"
    [] e.k = "idle" -> IF Settled(s) THEN "" ELSE "C22:did not end"
    [] e.k = "slow" -> ""   \* what is still running takes its time: what had to stop has been told to
    [] e.k = "left" -> IF e.n = 0 /\ e.open = 0 THEN "" ELSE "C22:left behind"
    [] e.k = "fin" -> IF s.ph = "ended" \/ ~Stopping(s) THEN IF \E i \in DOMAIN s.part : s.part[i] = "idle" /\ ~Stopping(s) THEN "C22:part never started" ELSE "" ELSE "C22:did not end"
    [] e.k \in {"stop", "list", "listed", "open", "closed"} -> ""
    [] OTHER -> "C22:" \o e.k
VStep(x, e) ==
  LET s == x.s IN
  CASE e.k = "mstart" -> [x EXCEPT !.s.ph = "running"]
    [] e.k = "ps" -> [x EXCEPT !.s = StartPart(s, e.i)]
    [] e.k = "pe" -> [x EXCEPT !.s = EndPart(s, e.i, e.how), !.since = IF Stopping(s) THEN @ ELSE e.t]
    [] e.k = "ended" -> [x EXCEPT !.s = End(s)]
    [] e.k = "stop" -> [x EXCEPT !.s.stopped = TRUE, !.since = IF Stopping(s) THEN @ ELSE e.t]
    [] e.k = "listed" -> [x EXCEPT !.listed = IF e.ok THEN @ \cup {e.ty} ELSE @]
    [] OTHER -> x
===============================================================================
