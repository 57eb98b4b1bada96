------------------------------- MODULE MCClock -------------------------------
(* Exhaustive check of the clock model: ghosts count deliveries and check   *)
(* that none is early.                                                      *)
EXTENDS Clock, TLC
CONSTANTS MaxT, Ids, Ds, MaxResets
VARIABLES s, fired, start, stopped, resets, moves
vars == <<s, fired, start, stopped, resets, moves>>

Init == s = CInit(0) /\ fired = [i \in Ids |-> 0] /\ start = [i \in Ids |-> 0]
        /\ stopped = {} /\ resets = 0 /\ moves = 0
Fresh(i) == i \notin DOMAIN s.w
MkTimer(i) == Fresh(i) /\ \E d \in Ds : s' = NewTimer(s, i, d)
           /\ start' = [start EXCEPT ![i] = s.now] /\ UNCHANGED <<fired, stopped, resets, moves>>
MkTicker(i) == Fresh(i) /\ \E d \in Ds \ {0} : s' = NewTicker(s, i, d)
           /\ start' = [start EXCEPT ![i] = s.now] /\ UNCHANGED <<fired, stopped, resets, moves>>
Deliv(a, b, i) == IF i \in DOMAIN b.w /\ b.w[i].buf # {} /\ (a.w[i].buf = {}) THEN 1 ELSE 0
Move == \E t \in s.now..MaxT :
          /\ s' = SetFake(s, t)
          /\ fired' = [i \in Ids |-> fired[i] + Deliv(s, s', i)]
          /\ moves' = moves + 1
          /\ moves < 4
          /\ UNCHANGED <<start, stopped, resets>>
Stop(i) == ~Fresh(i) /\ s.w[i].kind = "timer" /\ s.w[i].on /\ s' = StopFake(s, i)
           /\ stopped' = stopped \cup {i} /\ UNCHANGED <<fired, start, resets, moves>>
DoReset(i) == ~Fresh(i) /\ s.w[i].kind = "timer" /\ resets < MaxResets /\ resets' = resets + 1
           /\ \E d \in Ds : s' = Reset(s, i, d)
           /\ start' = (IF s.w[i].on THEN [start EXCEPT ![i] = s.now] ELSE start)
           /\ UNCHANGED <<fired, stopped, moves>>
Take(i) == ~Fresh(i) /\ s.w[i].buf # {} /\ s' = Consume(s, i) /\ UNCHANGED <<fired, start, stopped, resets, moves>>
Nxt == Move \/ \E i \in Ids : MkTimer(i) \/ MkTicker(i) \/ Stop(i) \/ DoReset(i) \/ Take(i)
Spec == Init /\ [][Nxt]_vars

TimerOnce == \A i \in DOMAIN s.w : s.w[i].kind = "timer" => fired[i] <= 1
StoppedNever == \A i \in stopped : fired[i] = 0
\* after a move nothing due is still waiting, and a timer that is on is not due
NothingMissed == \A i \in DOMAIN s.w : s.w[i].kind = "timer" /\ ~s.w[i].on /\ i \notin stopped => fired[i] = 1
\* a ticker keeps its phase
Phase == \A i \in DOMAIN s.w : s.w[i].kind = "ticker" =>
           /\ (s.w[i].target - start[i]) % s.w[i].every = 0
           /\ s.w[i].target > s.now
\* nothing is delivered before its time
NotEarly == [][\A i \in Ids : (fired'[i] > fired[i]) => s.w[i].target <= s'.now]_vars
=============================================================================
