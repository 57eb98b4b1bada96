------------------------------- MODULE MCWiring -------------------------------
(* Every configuration of a small grid, and informers wired in every order:  *)
(* what is accepted can work.                                                *)
EXTENDS Wiring
CONSTANTS Times, Names
VARIABLES c, inf, reg, seen
vars == <<c, inf, reg, seen>>
Init == /\ c \in [lease : Times, renew : Times, retry : Times, started : BOOLEAN, stopped : BOOLEAN, lock : BOOLEAN]
        /\ inf = InfInit /\ reg = ClientInit /\ seen = {}
Only(x) == c.lock /\ c.started /\ c.stopped /\ c.lease = c.renew /\ c.renew = c.retry /\ c.lease = 10 /\ x
Index(ns) == Only(inf' = AddIndex(inf, ns)) /\ UNCHANGED <<c, reg, seen>>
Handler(h) == Only(inf' = AddHandler(inf, h)) /\ UNCHANGED <<c, reg, seen>>
Run == Only(inf.ph = "new") /\ inf' = [inf EXCEPT !.ph = "running"] /\ seen' = inf.names /\ UNCHANGED <<c, reg>>
Stop == inf.ph = "running" /\ inf' = [inf EXCEPT !.ph = "stopped"] /\ UNCHANGED <<c, reg, seen>>
Define(k, t) == Only(Cardinality(DOMAIN reg) < 3) /\ reg' = ClientDefine(reg, k, t) /\ UNCHANGED <<c, inf, seen>>
Next == \/ \E ns \in SUBSET Names : Index(ns)
        \/ \E h \in 1..2 : Handler(h)
        \/ Run \/ Stop
        \/ \E k \in Names, t \in 1..2 : Define(k, t)
Spec == Init /\ [][Next]_vars
\* an accepted elector can try at least once before its deadline, and its
\* deadline comes before its lease ends
Works == ElectorOk(c) => c.retry > 0 /\ c.renew > c.retry /\ c.lease > c.retry
\* the indexes of a running informer do not change
Frozen == inf.ph # "new" => inf.names = seen
NotLost == [][\A k \in DOMAIN reg : k \in DOMAIN reg' /\ reg'[k] = reg[k]]_vars
=============================================================================
