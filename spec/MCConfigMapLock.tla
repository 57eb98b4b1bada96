--------------------------- MODULE MCConfigMapLock ---------------------------
(* The design of the config map lock: keep the map last read or written, and *)
(* write it back with the record replaced and its version; watched by the    *)
(* monitor of ConfigMapLock.tla.                                             *)
EXTENDS ConfigMapLock
CONSTANTS NL, MaxRv, Records, Faults, Orphans
VARIABLES srv, own, busy, m, v, rv
Gone == [cm |-> FALSE, rv |-> 0, r |-> 0, d |-> 0]
Idle == [op |-> "", r |-> 0, st |-> 0, ok |-> FALSE, map |-> Gone, id |-> 0, fault |-> FALSE]
Ls == 1..NL
all == <<srv, own, busy, m, v, rv>>
RECURSIVE Run(_, _, _)
Run(s, es, say) == IF es = << >> THEN [m |-> s, v |-> say]
                   ELSE Run(LStep(s, Head(es)), Tail(es), IF say # "" THEN say ELSE LVerdict(s, Head(es)))
\* the monitor's memory, without requests that can no longer arrive; the number of calls matters by parity only
Par(q) == [q EXCEPT !.c = @ % 2]
Canon(s) == [s EXCEPT !.req = LET k == SelectSeq(@, LAMBDA q : busy'[q.l].id = q.id) IN [i \in 1..Len(k) |-> Par(k[i])],
                      !.l = [l \in Ls |-> [@[l] EXCEPT !.c = @ % 2]]]
Feed(es) == LET r == Run(m, es, "") IN m' = Canon(r.m) /\ v' = r.v
Init == /\ srv = Gone /\ own = [l \in Ls |-> Gone] /\ busy = [l \in Ls |-> Idle] /\ rv = 0 /\ v = ""
        /\ m = LInit([n |-> NL])
E(k, t) == [k |-> k] @@ t
Call(l, op, r) ==
  /\ busy[l].op = "" /\ busy[l].st = 0
  /\ LET es == <<E("call", [l |-> l, op |-> op, r |-> r])>>
         id == l IN
     \* updating what was never read, or is not there, is refused at once
     IF op = "update" /\ ~own[l].cm
     THEN /\ UNCHANGED <<srv, own, busy, rv>>
          /\ Feed(es \o <<E("ret", [l |-> l, op |-> op, how |-> "raised", r |-> 0, raw |-> TRUE])>>)
     ELSE \E f \in {FALSE} \cup {Faults} :
          /\ busy' = [busy EXCEPT ![l] = [Idle EXCEPT !.op = op, !.r = r, !.id = id, !.fault = f]]
          /\ Feed(es \o <<E("req", [e |-> l, id |-> id])>> \o (IF f THEN <<E("fault", [e |-> l])>> ELSE << >>))
          /\ UNCHANGED <<srv, own, rv>>
Serve(l) == LET b == busy[l] IN
  /\ b.op # "" /\ b.st = 0 /\ UNCHANGED own
  /\ CASE b.op = "get" -> /\ busy' = [busy EXCEPT ![l].st = 1, ![l].ok = TRUE, ![l].map = srv]
                          /\ Feed(<<E("read", [l |-> l, id |-> b.id] @@ srv)>>) /\ UNCHANGED <<srv, rv>>
       [] (b.op = "create" /\ ~srv.cm) \/ (b.op = "update" /\ srv.cm /\ srv.rv = own[l].rv) ->
            /\ rv < MaxRv /\ rv' = rv + 1
            /\ srv' = [cm |-> TRUE, rv |-> rv', r |-> b.r, d |-> IF b.op = "create" THEN 1 ELSE own[l].d]
            /\ busy' = [busy EXCEPT ![l].st = 1, ![l].ok = TRUE, ![l].map = srv']
            /\ Feed(<<E("stored", [l |-> l, id |-> b.id] @@ srv')>>)
       [] OTHER -> busy' = [busy EXCEPT ![l].st = 1, ![l].ok = FALSE] /\ UNCHANGED <<srv, rv, m, v>>
Ret(l, how, r) == Feed(<<E("ret", [l |-> l, op |-> busy[l].op, how |-> how, r |-> r, raw |-> TRUE])>>)
Return(l) == LET b == busy[l] IN
  /\ b.op # "" /\ b.st = 1 /\ ~b.fault /\ busy' = [busy EXCEPT ![l] = Idle] /\ UNCHANGED <<srv, rv>>
  /\ IF b.ok THEN /\ own' = [own EXCEPT ![l] = b.map]
                  /\ Ret(l, "ok", IF b.op # "get" THEN 0 ELSE IF b.map.cm THEN b.map.r ELSE -1)
     ELSE Ret(l, "raised", 0) /\ UNCHANGED own
\* a fault comes before or after the server has served the request
Fail(l) == LET b == busy[l] IN
  /\ b.op # "" /\ b.fault /\ busy' = [busy EXCEPT ![l] = Idle] /\ Ret(l, "raised", 0) /\ UNCHANGED <<srv, own, rv>>
\* a call is cancelled; its request may be served later
Cancel(l) == LET b == busy[l] IN
  /\ Orphans /\ b.op # "" /\ UNCHANGED <<srv, own, rv>>
  /\ \/ busy' = [busy EXCEPT ![l] = Idle]
     \/ b.st = 0 /\ b.op = "update" /\ busy' = [busy EXCEPT ![l] = [Idle EXCEPT !.st = 2, !.id = b.id, !.r = b.r, !.map = own[l]]]
  /\ Ret(l, "cancelled", 0)
Orphan(l) == LET b == busy[l] IN
  /\ b.st = 2 /\ busy' = [busy EXCEPT ![l] = Idle] /\ UNCHANGED own
  /\ IF srv.cm /\ srv.rv = b.map.rv
     THEN /\ rv < MaxRv /\ rv' = rv + 1 /\ srv' = [cm |-> TRUE, rv |-> rv', r |-> b.r, d |-> b.map.d]
          /\ Feed(<<E("stored", [l |-> l, id |-> b.id] @@ srv')>>)
     ELSE UNCHANGED <<srv, rv>> /\ Feed(<< >>)
Outside ==
  /\ rv < MaxRv /\ rv' = rv + 1 /\ UNCHANGED <<own, busy>>
  /\ \/ srv.cm /\ srv' = Gone
     \/ \E r \in {0} \cup Records : srv' = [cm |-> TRUE, rv |-> rv', r |-> r, d |-> 3 - (IF srv.d = 0 THEN 1 ELSE srv.d)]
  /\ Feed(<<E("outside", srv')>>)
Next == \/ \E l \in Ls : \/ \E op \in {"get", "create", "update"}, r \in Records : (op = "get" => r = 1) /\ Call(l, op, r)
                         \/ Serve(l) \/ Return(l) \/ Fail(l) \/ Cancel(l) \/ Orphan(l)
        \/ Outside
Spec == Init /\ [][Next]_all
NoComplaint == v = ""
\* a lock that succeeds with the newest version holds what the server holds
InStep == \A l \in Ls : own[l].cm /\ srv.cm /\ own[l].rv = srv.rv => own[l] = srv
=============================================================================
