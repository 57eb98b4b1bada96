----------------------------- MODULE ClockTrace -----------------------------
(* Replays recorded uses of the fake and the real clock.                    *)
EXTENDS Clock, DetTrace

KInit(cfg) == CInit(cfg.t0) @@ [real |-> cfg.real, waiting |-> {}]
Core(s) == [now |-> s.now, w |-> s.w]
Put(s, c) == [s EXCEPT !.now = c.now, !.w = c.w]
OnOf(s, id) == s.w[id].on

KVerdict(s, e) ==
  CASE e.k = "timer" -> ""
    [] e.k = "ticker" -> ""
    [] e.k = "set" -> IF e.done THEN "" ELSE "C23:a step did not finish"
    [] e.k = "stop" -> IF s.real \/ s.w[e.id].kind = "ticker" \/ e.r = OnOf(s, e.id) THEN "" ELSE "C23:stop result"
    [] e.k = "reset" -> IF e.r = OnOf(s, e.id) THEN "" ELSE "C23:reset result"
    [] e.k = "now" -> IF e.v = s.now /\ e.since = s.now - e.ts THEN "" ELSE "C23:now or since"
    [] e.k = "has" -> IF e.v = HasWaiters(s) THEN "" ELSE "C23:has_waiters"
    [] e.k = "poll" -> IF e.v = -1000000 THEN (IF s.w[e.id].buf = {} THEN "" ELSE "C23:due but not delivered")
                       ELSE IF s.w[e.id].buf = {} THEN "C23:delivered though not due"
                       ELSE IF s.w[e.id].buf = {e.v} THEN "" ELSE "C23:wrong time delivered"
    [] e.k = "await" -> ""
    [] e.k = "unawait" -> ""
    [] e.k = "got" -> IF s.w[e.id].buf = {} THEN "C23:delivered though not due"
                      ELSE IF s.w[e.id].buf = {e.v} THEN "" ELSE "C23:wrong time delivered"
    [] e.k = "idle" -> IF \A i \in s.waiting : s.w[i].buf = {} THEN "" ELSE "C23:a waiting consumer got nothing"
    [] OTHER -> "C23:" \o e.k
KStep(s, e) ==
  CASE e.k = "timer" -> Put(s, NewTimer(Core(s), e.id, e.d))
    [] e.k = "ticker" -> Put(s, NewTicker(Core(s), e.id, e.d))
    [] e.k = "set" -> Put(s, IF s.real THEN SetReal(Core(s), e.to) ELSE SetFake(Core(s), e.to))
    [] e.k = "stop" -> Put(s, IF s.real THEN StopReal(Core(s), e.id) ELSE StopFake(Core(s), e.id))
    [] e.k = "reset" -> Put(s, Reset(Core(s), e.id, e.d))
    [] e.k = "poll" -> Put(s, Consume(Core(s), e.id))
    [] e.k = "await" -> [s EXCEPT !.waiting = @ \cup {e.id}]
    [] e.k = "unawait" -> [s EXCEPT !.waiting = @ \ {e.id}]
    [] e.k = "got" -> [Put(s, Consume(Core(s), e.id)) EXCEPT !.waiting = @ \ {e.id}]
    [] OTHER -> s
=============================================================================
