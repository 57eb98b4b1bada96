------------------------------- MODULE MCResync -------------------------------
(* Who is resynced when: handlers ask for periods before or after the start, *)
(* the check timer runs during each list-and-watch round, and at each check   *)
(* the handlers whose time has come get every object again.  The monitor of   *)
(* Informer.tla watches: no resync too soon, none overdue, nobody else's.     *)
(*  next   handler -> when its next resync is due   per: its period           *)
(*  tm     time of the last check or start of the round (-1: no round)        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
M == INSTANCE Informer
CONSTANTS Default, Asks, Hs, MaxT, MaxBreaks
VARIABLES now, m, next, tm, breaks, bad
vars == <<now, m, next, tm, breaks, bad>>
S == 1024
K == "k"
Obj == <<[key |-> K, v |-> 1]>>

Init == now = 0 /\ m = M!IInit(Default * S) /\ next = << >> /\ tm = -1 /\ breaks = 0 /\ bad = FALSE
\* what the informer does with a request for a period: ask > 0 in seconds, 0 none, 99 the default, 98 half a second
Raw(ask) == IF ask = 99 THEN Default * S ELSE IF ask = 98 THEN S \div 2 ELSE ask * S
Add(h, ask) ==
  /\ h \notin DOMAIN next /\ \A g \in Hs : g < h => g \in DOMAIN next
  /\ LET r == IF Raw(ask) > 0 /\ Raw(ask) < S THEN S ELSE Raw(ask)
         P == IF r > 0 /\ ~m.started /\ r < m.P THEN r ELSE m.P
         per == IF r = 0 \/ P = 0 THEN 0 ELSE IF r < P THEN P ELSE r
     IN /\ next' = [x \in DOMAIN next \cup {h} |-> IF x = h THEN [at |-> now + per, per |-> per] ELSE next[x]]
        /\ m' = [M!AddHandler(m, h, IF ask = 99 THEN -1 ELSE Raw(ask), now)
                   EXCEPT !.h[h].ready = TRUE, !.h[h].known = m.dlv]
  /\ UNCHANGED <<now, tm, breaks, bad>>
Start == ~m.started /\ m' = M!Start(m) /\ UNCHANGED <<now, next, tm, breaks, bad>>
List == /\ m.started /\ tm = -1 /\ tm' = now
        /\ m' = [M!GotList(m, Obj, 1, now) EXCEPT !.h = [i \in DOMAIN @ |-> [@[i] EXCEPT !.known = M!FromList(Obj), !.cred = {}]]]
        /\ UNCHANGED <<now, next, breaks, bad>>
Break == /\ tm # -1 /\ breaks < MaxBreaks /\ breaks' = breaks + 1 /\ tm' = -1 /\ m' = [m EXCEPT !.S = -1, !.susp = TRUE]
         /\ UNCHANGED <<now, next, bad>>
CheckDue == tm # -1 /\ m.P > 0 /\ now >= tm + m.P
Note == [op |-> "update", key |-> K, old |-> 1, new |-> 1]
Check == /\ CheckDue /\ tm' = now
         /\ LET due == {h \in DOMAIN next : next[h].per > 0 /\ now >= next[h].at} IN
              /\ next' = [h \in DOMAIN next |-> IF h \in due THEN [next[h] EXCEPT !.at = now + next[h].per] ELSE next[h]]
              /\ m' = [m EXCEPT !.h = [i \in DOMAIN @ |-> IF i \in due THEN M!Resynced(@[i], Note, now) ELSE @[i]]]
              /\ bad' = (bad \/ \E h \in due : ~(M!IsResync(m, m.h[h], Note, now) /\ M!ResyncDue(m, m.h[h], Note, now)))
         /\ UNCHANGED <<now, breaks>>
Tick == ~CheckDue /\ now < MaxT * S /\ now' = now + S /\ UNCHANGED <<m, next, tm, breaks, bad>>
Next == (\E h \in Hs, a \in Asks : Add(h, a)) \/ Start \/ List \/ Break \/ Check \/ Tick
Spec == Init /\ [][Next]_vars
NeverTooSoon == ~bad
\* judged when nothing is left to run at this time
InTime == ~CheckDue /\ tm # -1 => M!ResyncInTime(m, now) /\ M!ResyncComplete(m, now)
Periods == \A h \in DOMAIN next : /\ next[h].per = M!EffOf(m, m.h[h])
                                  /\ next[h].per > 0 => next[h].per >= S /\ next[h].per >= m.P
Smallest == \A h \in DOMAIN next : ~m.started => next[h].per = 0 \/ m.P <= next[h].per
=============================================================================
