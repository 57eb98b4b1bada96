-------------------------------- MODULE Wiring --------------------------------
(***************************************************************************)
(* What a user hands to the framework before anything runs: configurations *)
(* that cannot work are refused, the others accepted; every part that asks *)
(* for the manager's cache or for its way to inject gets it; an informer   *)
(* takes indexes and handlers until it has started and stopped.            *)
(* Durations are in tenths of a second.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* a leader elector: a lease must outlive the attempts to renew it, and an
\* attempt must be possible within the renewal deadline (jitter factor 1.2)
ElectorOk(c) == /\ c.lease > c.renew
                /\ 10 * c.renew > 12 * c.retry
                /\ c.lease > 0 /\ c.renew > 0 /\ c.retry > 0
                /\ c.started /\ c.stopped /\ c.lock
\* a token bucket (thousandths)
BucketOk(c) == c.limit > 0 /\ c.burst >= 1000

\* one client per kind; typed kinds are found by their object type
ClientInit == << >>
ClientOk(reg, gvk) == gvk \notin DOMAIN reg
ClientDefine(reg, gvk, type) == IF ClientOk(reg, gvk) THEN [x \in DOMAIN reg \cup {gvk} |-> IF x = gvk THEN type ELSE reg[x]] ELSE reg
TypeKind(reg, type) == IF \E g \in DOMAIN reg : reg[g] = type THEN CHOOSE g \in DOMAIN reg : reg[g] = type ELSE "none"

\* parts: id -> what it asks for; a source keeps the cache it was given first
PartsInit == << >>
Hand(ps, id, p) == [x \in DOMAIN ps \cup {id} |->
                      IF x = id THEN [cache |-> IF p.own # "" THEN p.own ELSE IF p.wants THEN "manager" ELSE "",
                                      inject |-> p.func] ELSE ps[x]]

\* an informer before, while and after it runs
InfInit == [ph |-> "new", names |-> {}, handlers |-> {}]
IndexOk(i, ns) == i.ph = "new" /\ ns \cap i.names = {}
AddIndex(i, ns) == IF IndexOk(i, ns) THEN [i EXCEPT !.names = @ \cup ns] ELSE i
AddHandler(i, h) == IF i.ph = "stopped" THEN i ELSE [i EXCEPT !.handlers = @ \cup {h}]
=============================================================================
