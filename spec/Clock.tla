-------------------------------- MODULE Clock --------------------------------
(***************************************************************************)
(* Clocks with timers and tickers.                                         *)
(*   s.now    current time                                                 *)
(*   s.w      waiters by id: [kind, target, every, on, buf]                *)
(*            kind "timer"/"ticker"; on = still registered; buf = value    *)
(*            delivered and not consumed yet, {} or {t}                    *)
(* A fake clock only moves when told to (any amount, even backwards) and   *)
(* delivers to each due waiter once per move; a real clock moves           *)
(* continuously.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CInit(t) == [now |-> t, w |-> << >>]

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

NewTimer(s, id, d) == [s EXCEPT !.w = Upd(@, id,
    [kind |-> "timer", target |-> s.now + d, every |-> 0, on |-> TRUE, buf |-> {}])]
NewTicker(s, id, d) == [s EXCEPT !.w = Upd(@, id,
    [kind |-> "ticker", target |-> s.now + d, every |-> d, on |-> TRUE, buf |-> {}])]

\* first target after t, keeping the phase
Next(target, every, t) == target + every * (((t - target) \div every) + 1)

FireFake(w, t) ==
  IF ~w.on \/ w.target > t THEN w
  ELSE IF w.kind = "timer" THEN [w EXCEPT !.on = FALSE, !.buf = {t}]
  ELSE [w EXCEPT !.buf = IF @ = {} THEN {t} ELSE @, !.target = Next(@, w.every, t)]

\* a real clock passes every moment in between: the first tick fills the buffer
FireReal(w, t) ==
  IF ~w.on \/ w.target > t THEN w
  ELSE IF w.kind = "timer" THEN [w EXCEPT !.on = FALSE, !.buf = {w.target}]
  ELSE [w EXCEPT !.buf = IF @ = {} THEN {w.target} ELSE @, !.target = Next(@, w.every, t)]

SetFake(s, t) == [now |-> t, w |-> [i \in DOMAIN s.w |-> FireFake(s.w[i], t)]]
SetReal(s, t) == [now |-> t, w |-> [i \in DOMAIN s.w |-> FireReal(s.w[i], t)]]

\* stopping a fake ticker has no effect (upstream behaviour)
StopFake(s, id) == IF s.w[id].kind = "timer" THEN [s EXCEPT !.w[id].on = FALSE] ELSE s
StopReal(s, id) == [s EXCEPT !.w[id].on = FALSE]
\* resetting moves the target of a timer that has not fired and was not stopped
Reset(s, id, d) == IF s.w[id].on THEN [s EXCEPT !.w[id].target = s.now + d] ELSE s
Consume(s, id) == [s EXCEPT !.w[id].buf = {}]
HasWaiters(s) == \E i \in DOMAIN s.w : s.w[i].on
=============================================================================
