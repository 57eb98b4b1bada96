------------------------------- MODULE GenClock ------------------------------
(* Scripts for the fake clock. *)
EXTENDS Clock, GenLin
CONSTANTS Ids, Ds, Moves

CGInit == CInit(0)
CGApply(s, c) ==
  LET r(x) == {[st |-> x, res |-> ""]} IN
  CASE c.op = "timer" -> r(NewTimer(s, c.id, c.d))
    [] c.op = "ticker" -> r(NewTicker(s, c.id, c.d))
    [] c.op = "move" -> r(SetFake(s, s.now + c.d))
    [] c.op = "stop" -> r(StopFake(s, c.id))
    [] c.op = "reset" -> r(Reset(s, c.id, c.d))
    [] c.op = "poll" -> r(Consume(s, c.id))
    [] OTHER -> {}
CGInternal(s) == {}
Timers(s) == {i \in DOMAIN s.w : s.w[i].kind = "timer"}
NextId(s) == {i \in Ids : i \notin DOMAIN s.w /\ \A j \in Ids : j < i => j \in DOMAIN s.w}
CGCalls(s, n) ==
  {[op |-> "timer", id |-> i, d |-> d] : i \in NextId(s), d \in Ds}
  \cup {[op |-> "ticker", id |-> i, d |-> d] : i \in NextId(s), d \in Ds \ {0}}
  \cup {[op |-> "move", d |-> d] : d \in Moves}
  \cup {[op |-> "stop", id |-> i] : i \in DOMAIN s.w}
  \cup {[op |-> "reset", id |-> i, d |-> d] : i \in Timers(s), d \in Ds}
  \cup {[op |-> "poll", id |-> i] : i \in DOMAIN s.w}
CMoves == {0, 1, 2, 4, 9, -2}
CGWaits(c) == FALSE
CGAbs(s) == [i \in DOMAIN s.w |-> <<s.w[i].kind, s.w[i].on, s.w[i].target - s.now, s.w[i].every, s.w[i].buf = {}>>]
CGOp(c) == IF c.op = "move" THEN <<c.op, c.d>> ELSE IF c.op \in {"stop", "poll"} THEN <<c.op, c.id>> ELSE <<c.op, c.id, c.d>>
=============================================================================
