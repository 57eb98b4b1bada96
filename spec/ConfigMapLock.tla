---------------------------- MODULE ConfigMapLock ----------------------------
(***************************************************************************)
(* Locks that keep a record in an annotation of one shared config map.      *)
(*   s.cm/rv/r/d  the stored map: exists, version, record, everything else  *)
(*   per lock: op under way (its number and record), what it has seen       *)
(*   (version 0: nothing), what this call read, whether it stored, whether   *)
(*   a fault hit it, whether the map stayed the same / existed meanwhile     *)
(*   req  all requests, each with the call it was made for                  *)
(* Records and other contents are numbers; record 0 is "none".              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoLock == [op |-> "", c |-> 0, r |-> 0, rv |-> 0, d |-> 0, reads |-> << >>, wrote |-> FALSE, wrv |-> 0, wd |-> 0,
           fault |-> FALSE, same |-> FALSE, exist |-> FALSE]
LInit(cfg) == [cm |-> FALSE, rv |-> 0, r |-> 0, d |-> 0, l |-> [i \in 1..cfg.n |-> NoLock], req |-> << >>]

\* the call a request was made for, as it was then
Req(s, id) == s.req[CHOOSE i \in 1..Len(s.req) : s.req[i].id = id]
StoredVerdict(s, e) ==
  IF ~(\E i \in 1..Len(s.req) : s.req[i].id = e.id) THEN "stored without being asked"
  ELSE LET x == Req(s, e.id) IN
  CASE x.op \notin {"create", "update"} -> "stored without being asked"
    [] e.r # x.r -> "stored another record"
    [] x.op = "create" -> IF s.cm THEN "created what exists" ELSE ""
    [] ~s.cm -> "updated what is gone"
    [] s.rv # x.rv -> "overwrote a change it had not seen"
    [] e.d # x.d -> "changed other data"
    [] OTHER -> ""
\* what a successful get may return: -1 no map, 0 a map without record
Returned(x, r) == \E i \in 1..Len(x.reads) : x.reads[i] = r
RetVerdict(s, e) ==
  LET x == s.l[e.l] IN
  CASE x.op = "" -> "not called"
    [] e.how = "ok" /\ e.op = "get" -> IF x.reads = << >> THEN "read nothing"
                                        ELSE IF ~Returned(x, e.r) \/ ~e.raw THEN "wrong record" ELSE ""
    [] e.how = "ok" -> IF ~x.wrote THEN "succeeded without storing" ELSE ""
    [] e.how = "raised" /\ e.op = "get" -> IF ~x.fault THEN "reading failed" ELSE ""
    [] e.how = "raised" ->
         IF x.wrote /\ ~x.fault THEN "stored and raised"
         ELSE IF ~x.fault /\ e.op = "create" /\ ~x.exist THEN "creating failed"
         ELSE IF ~x.fault /\ e.op = "update" /\ x.rv # 0 /\ x.same THEN "updating failed" ELSE ""
    [] OTHER -> ""
LVerdict(s, e) ==
  CASE e.k = "stored" -> StoredVerdict(s, e)
    [] e.k = "ret" -> RetVerdict(s, e)
    [] e.k = "over" -> IF \E i \in DOMAIN s.l : s.l[i].op # "" THEN "never returned" ELSE ""
    [] OTHER -> ""

\* every lock under way notices that the map changed meanwhile
Changed(s, e) == [s EXCEPT !.cm = e.cm, !.rv = e.rv, !.r = e.r, !.d = e.d,
                           !.l = [i \in DOMAIN @ |-> [@[i] EXCEPT !.same = @ /\ s.l[i].rv = e.rv,
                                                                  !.exist = @ \/ e.cm]]]
LStep(s, e) ==
  CASE e.k = "init" -> [s EXCEPT !.cm = e.cm, !.rv = e.rv, !.r = e.r, !.d = e.d]
    [] e.k = "outside" -> Changed(s, e)
    [] e.k = "call" -> [s EXCEPT !.l[e.l] = [@ EXCEPT !.op = e.op, !.c = @ + 1, !.r = e.r, !.reads = << >>,
                                              !.wrote = FALSE, !.fault = FALSE, !.exist = s.cm,
                                              !.same = (s.cm /\ s.rv = s.l[e.l].rv)]]
    [] e.k = "req" -> LET x == s.l[e.e] IN
                      [s EXCEPT !.req = Append(@, [id |-> e.id, l |-> e.e, c |-> x.c, op |-> x.op, r |-> x.r,
                                                   rv |-> x.rv, d |-> x.d])]
    [] e.k = "read" -> IF Req(s, e.id).c # s.l[e.l].c THEN s
                       ELSE [s EXCEPT !.l[e.l].reads = Append(@, IF e.cm THEN e.r ELSE -1),
                                      !.l[e.l].wrv = e.rv, !.l[e.l].wd = e.d]
    [] e.k = "fault" -> [s EXCEPT !.l[e.e].fault = TRUE]
    [] e.k = "stored" -> LET a == Changed(s, e) IN
                         IF Req(s, e.id).c # s.l[e.l].c THEN a
                         ELSE [a EXCEPT !.l[e.l].wrote = TRUE, !.l[e.l].wrv = e.rv, !.l[e.l].wd = e.d]
    [] e.k = "ret" -> LET x == s.l[e.l] IN
                      [s EXCEPT !.l[e.l] = [NoLock EXCEPT !.c = x.c,
                                                          !.rv = IF e.how = "ok" THEN x.wrv ELSE x.rv,
                                                          !.d = IF e.how = "ok" THEN x.wd ELSE x.d]]
    [] OTHER -> s
=============================================================================
