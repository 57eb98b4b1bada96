------------------------------ MODULE MCManager ------------------------------
(* The design of manager and cache (an informer per type asked for, run from *)
(* the start on; reads that wait for the sync; controllers held back until    *)
(* all informers registered before the start have synced) watched by the      *)
(* monitor of Manager.tla.                                                    *)
EXTENDS Manager
CONSTANTS MTypes, MaxG, MaxC, MaxT
MCPoll == 1
VARIABLES up, infs, waitfor, have, store, srv, rv, gets, ng, ctl, now, m, v
vars == <<up, infs, waitfor, have, store, srv, rv, gets, ng, ctl, now, m, v>>
Empty == [t \in Types |-> [k \in Ks |-> 0]]
Init == /\ up = 0 /\ infs = {1} /\ waitfor = {} /\ have = {} /\ store = Empty /\ srv = Empty /\ rv = 0 /\ gets = {} /\ ng = 0
        /\ ctl = FALSE /\ now = 0 /\ v = ""
        /\ m = MStep(MInit([tys |-> <<1, 2>>, watched |-> <<1>>]), [k |-> "built"])
E(k, t) == [k |-> k, t |-> now] @@ t
None == [x |-> 0]
RECURSIVE Run(_, _, _)
Run(s, es, say) == IF es = << >> THEN [m |-> s, v |-> say]
                   ELSE Run(MStep(s, Head(es)), Tail(es), IF say # "" THEN say ELSE MVerdict(s, Head(es)))
Feed(es) == LET r == Run(m, es, "") IN m' = r.m /\ v' = r.v
Stored(t) == IF store[t][1] = 0 THEN [r |-> "absent", v |-> 0] ELSE [r |-> "value", v |-> store[t][1]]
\* asking for a type registers its informer, which runs at once if the cache runs; reads before the start fail at once
Get(t) == /\ ng < MaxG /\ ng' = ng + 1 /\ infs' = infs \cup {t}
          /\ IF up < 2
             THEN /\ gets' = gets
                  /\ Feed(<<E("get", [g |-> ng', ty |-> t, key |-> 1]), E("got", [g |-> ng', r |-> "notstarted", v |-> 0])>>)
             ELSE /\ gets' = gets \cup {[g |-> ng', ty |-> t]}
                  /\ Feed(<<E("get", [g |-> ng', ty |-> t, key |-> 1])>>
                          \o (IF t \in infs THEN << >> ELSE <<E("list", [ty |-> t])>>))
          /\ UNCHANGED <<up, waitfor, have, store, srv, rv, ctl, now>>
Return == \E g \in gets : /\ g.ty \in have /\ gets' = gets \ {g}
                          /\ Feed(<<E("got", [g |-> g.g] @@ Stored(g.ty))>>)
                          /\ UNCHANGED <<up, infs, waitfor, have, store, srv, rv, ng, ctl, now>>
Start == /\ up = 0 /\ up' = 1 /\ waitfor' = infs /\ Feed(<<E("mstart", None)>>)
         /\ UNCHANGED <<infs, have, store, srv, rv, gets, ng, ctl, now>>
SetToSeq(S) == CHOOSE f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]
CacheRuns == /\ up = 1 /\ up' = 2
             /\ LET ts == SetToSeq(infs) IN Feed([i \in 1..Len(ts) |-> E("list", [ty |-> ts[i]])] \o <<E("idle", None)>>)
             /\ UNCHANGED <<infs, waitfor, have, store, srv, rv, gets, ng, ctl, now>>
Listed(t) == /\ up = 2 /\ t \in infs \ have /\ have' = have \cup {t} /\ store' = [store EXCEPT ![t] = srv[t]]
             /\ Feed(<<E("listed", [ty |-> t, ok |-> TRUE])>>)
             /\ UNCHANGED <<up, infs, waitfor, srv, rv, gets, ng, ctl, now>>
Fail(t) == /\ up = 2 /\ t \in infs \ have /\ rv < MaxC /\ rv' = rv + 1
           /\ Feed(<<E("listed", [ty |-> t, ok |-> FALSE]), E("list", [ty |-> t])>>)
           /\ UNCHANGED <<up, infs, waitfor, have, store, srv, gets, ng, ctl, now>>
Change(t) == /\ rv < MaxC /\ rv' = rv + 1
             /\ srv' = [srv EXCEPT ![t][1] = IF @ = 0 THEN rv + 1 ELSE 0]
             /\ Feed(<<E("chg", [ty |-> t, key |-> 1, v |-> srv'[t][1]])>>)
             /\ UNCHANGED <<up, infs, waitfor, have, store, gets, ng, ctl, now>>
Deliver(t) == /\ t \in have /\ store[t] # srv[t] /\ store' = [store EXCEPT ![t] = srv[t]]
              /\ UNCHANGED <<up, infs, waitfor, have, srv, rv, gets, ng, ctl, now, m, v>>
ControllerUp == /\ up = 2 /\ ~ctl /\ waitfor \subseteq have /\ ctl' = TRUE
                /\ UNCHANGED <<up, infs, waitfor, have, store, srv, rv, gets, ng, now, m, v>>
\* a reconcile whenever the last one read something else
Reconcile == /\ ctl /\ m.read[1][1] # store[1][1]
             /\ Feed(<<E("rs", [c |-> 1, key |-> 1]), E("rr", [c |-> 1, key |-> 1] @@ Stored(1)), E("re", [c |-> 1, key |-> 1])>>)
             /\ UNCHANGED <<up, infs, waitfor, have, store, srv, rv, gets, ng, ctl, now>>
Busy == up = 1 \/ (\E g \in gets : g.ty \in have) \/ (\E t \in have : store[t] # srv[t])
        \/ (up = 2 /\ ~ctl /\ waitfor \subseteq have) \/ (ctl /\ m.read[1][1] # store[1][1])
Tick == /\ now < MaxT /\ ~Busy /\ now' = now + 1
        /\ Feed(<<[k |-> "idle", t |-> now]>> \o
                (IF up = 2 /\ have = infs /\ infs = MTypes THEN <<[k |-> "calm", t |-> now, ok |-> <<1, 2>>, srv |-> srv, open |-> TRUE],
                                                 [k |-> "quiet", t |-> now]>> ELSE << >>))
        /\ UNCHANGED <<up, infs, waitfor, have, store, srv, rv, gets, ng, ctl>>
GetAny == \E t \in MTypes : Get(t)
ListedAny == \E t \in MTypes : Listed(t)
FailAny == \E t \in MTypes : Fail(t)
ChangeAny == \E t \in MTypes : Change(t)
DeliverAny == \E t \in MTypes : Deliver(t)
Nxt == GetAny \/ Return \/ Start \/ CacheRuns \/ ListedAny \/ FailAny \/ ChangeAny \/ DeliverAny \/ ControllerUp \/ Reconcile \/ Tick
Spec == Init /\ [][Nxt]_vars /\ WF_vars(ListedAny) /\ WF_vars(Return) /\ WF_vars(CacheRuns)
NoComplaint == v = ""
\* no controller works before every informer registered before the start has synced
Gated == ctl => waitfor \subseteq have
\* every read returns in the end
Returns == (gets # {}) ~> (gets = {})
=============================================================================
