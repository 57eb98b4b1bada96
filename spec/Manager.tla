------------------------------- MODULE Manager -------------------------------
(***************************************************************************)
(* What the manager and its cache owe readers and controllers, as a monitor *)
(* over what they do and what the API server saw.  Types and keys are        *)
(* numbered 1..3 and 1..4; object versions are numbers, 0 is "no object".    *)
(*  s.ph       0 not started, 1 start called, 2 started, 3 stopped, 4 ended  *)
(*  s.reg/sure types somebody asked for / registered for certain             *)
(*  s.req      types registered before the start: controllers wait for them  *)
(*  s.nl/busy  lists of a type begun / under way    s.open open watches      *)
(*  s.synced   time of a type's first successful list, or -1                 *)
(*  s.hist     every version a key had, s.low where a reader may have to     *)
(*             start reading (everything before has been delivered)          *)
(*  s.wait     reads, registrations and waits under way                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Types == 1..3
Ks == 1..4
\* waiting for a sync polls every 0.1 s
Poll == 140

MInit(cfg) == [ph |-> 0, reg |-> {}, sure |-> {}, req |-> {}, tys |-> {cfg.tys[i] : i \in 1..Len(cfg.tys)},
               watched |-> cfg.watched, nl |-> [t \in Types |-> 0], busy |-> [t \in Types |-> 0],
               open |-> [t \in Types |-> {}], synced |-> [t \in Types |-> -1], obj |-> [t \in Types |-> 0],
               hist |-> [t \in Types |-> [k \in Ks |-> <<0>>]], low |-> [t \in Types |-> [k \in Ks |-> 1]],
               wait |-> << >>, read |-> [c \in 1..Len(cfg.watched) |-> [k \in Ks |-> 0]],
               rlow |-> [c \in 1..Len(cfg.watched) |-> [k \in Ks |-> 1]], srv |-> << >>]

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Seen(s, ty, k, from, v) == \E j \in from..Len(s.hist[ty][k]) : s.hist[ty][k][j] = v
AllSynced(s, tys) == \A t \in tys : s.synced[t] >= 0
W(s, g) == s.wait[CHOOSE i \in 1..Len(s.wait) : s.wait[i].g = g]
Done(s, g) == [s EXCEPT !.wait = SelectSeq(@, LAMBDA w : w.g # g)]
Begin(s, kind, g, tys, k, t) ==
  [s EXCEPT !.wait = Append(@, [kind |-> kind, g |-> g, tys |-> tys, key |-> k, at |-> t, ph |-> s.ph,
                                sure |-> s.sure,
                                low |-> IF kind = "get" THEN s.low[Min(tys)][k] ELSE 0])]
\* what has to have returned by now
Late(s, w, t) ==
  CASE w.kind = "bad" -> TRUE
    [] w.kind \in {"get", "inf"} /\ s.ph = 0 -> TRUE
    [] w.kind = "wcs" \/ s.ph = 2 -> \A ty \in w.tys : s.synced[ty] >= 0 /\ t - s.synced[ty] > Poll /\ t - w.at > Poll
    [] OTHER -> FALSE

GotVerdict(s, w, r, v) ==
  LET ty == Min(w.tys) IN
  CASE r = "notstarted" -> IF w.ph >= 2 THEN "started cache says it is not" ELSE ""
    [] r \in {"value", "absent"} ->
         IF s.ph = 0 THEN "read before the start"
         ELSE IF s.synced[ty] < 0 THEN "read before the sync"
         ELSE IF r = "value" /\ v = 0 THEN "nothing read"
         ELSE IF ~Seen(s, ty, w.key, w.low, IF r = "value" THEN v ELSE 0) THEN "wrong or stale object" ELSE ""
    [] r = "wrong object" -> "wrong or stale object"
    [] OTHER -> IF s.ph >= 3 THEN "" ELSE "read failed"
InfVerdict(s, w, r, o) ==
  LET ty == Min(w.tys) IN
  IF r # "ok" THEN (IF s.ph >= 3 THEN "" ELSE "no informer")
  ELSE IF s.obj[ty] # 0 /\ s.obj[ty] # o THEN "second informer for a type"
  ELSE IF \E t \in Types \ {ty} : s.obj[t] = o THEN "informer shared between types"
  ELSE IF w.ph = 2 /\ s.ph = 2 /\ s.synced[ty] < 0 THEN "informer given out before the sync" ELSE ""

IdleSay(s, t) ==
  IF s.ph = 3 THEN "did not finish"
  ELSE IF \E i \in 1..Len(s.wait) : Late(s, s.wait[i], t) THEN "does not return"
  ELSE IF s.ph \in {1, 2} /\ \E ty \in s.reg : s.nl[ty] = 0 THEN "informer not running" ELSE ""

MVerdict(s, e) ==
  CASE e.k = "got" -> GotVerdict(s, W(s, e.g), e.r, e.v)
    [] e.k = "infd" -> InfVerdict(s, W(s, e.g), e.r, e.obj)
    [] e.k = "badd" -> IF e.r = "refused" THEN "" ELSE "unknown type not refused"
    [] e.k = "wcsd" -> IF e.r = "ok" THEN (IF AllSynced(s, W(s, e.g).sure) THEN "" ELSE "claims to be synced")
                       ELSE IF s.ph >= 3 THEN "" ELSE "wait failed"
    [] e.k = "list" -> IF s.ph = 0 THEN "lists before the start"
                       ELSE IF s.ph = 4 THEN "lists after the end"
                       ELSE IF e.ty \notin s.reg THEN "lists a type nobody asked for"
                       ELSE IF s.busy[e.ty] > 0 THEN "two informers for a type" ELSE ""
    [] e.k = "open" -> IF s.ph = 4 THEN "watches after the end"
                       ELSE IF s.open[e.ty] # {} THEN "two watches for a type" ELSE ""
    [] e.k = "rs" -> IF s.ph \in {0, 4} THEN "reconcile while not running"
                     ELSE IF ~AllSynced(s, s.req \cup {s.watched[e.c]}) THEN "reconcile before the sync"
                     ELSE IF e.key = 0 THEN "request of no object" ELSE ""
    [] e.k = "rr" -> IF s.ph >= 3 THEN ""
                     ELSE IF e.r \in {"value", "absent"} /\ (e.r = "value") = (e.v > 0) /\
                             Seen(s, s.watched[e.c], e.key, s.rlow[e.c][e.key], e.v) THEN ""
                     ELSE "reconciler read a wrong or stale object"
    [] e.k = "idle" -> IdleSay(s, e.t)
    [] e.k = "quiet" -> IF \E i \in 1..Len(s.wait) : s.ph = 2 THEN "does not return"
                        ELSE IF ~AllSynced(s, s.reg) THEN "never synced"
                        ELSE IF \E c \in 1..Len(s.watched), k \in Ks : s.read[c][k] # s.srv[s.watched[c]][k]
                        THEN "object not reconciled" ELSE ""
    [] e.k = "ended" -> IF s.ph # 3 THEN "ended by itself" ELSE IF e.r # "cancelled" THEN "ended without cancellation" ELSE ""
    [] e.k = "left" -> IF e.n # 0 THEN "left tasks running" ELSE IF e.open # 0 THEN "left a watch open" ELSE ""
    [] e.k \in {"get", "inf", "bad", "wcs", "listed", "closed", "chg", "calm", "built", "mstart", "stop", "fin", "re"} -> ""
    [] OTHER -> e.k

MStep(s, e) ==
  CASE e.k = "get" -> Begin([s EXCEPT !.reg = @ \cup {e.ty}], "get", e.g, {e.ty}, e.key, e.t)
    [] e.k = "inf" -> Begin([s EXCEPT !.reg = @ \cup {e.ty}], "inf", e.g, {e.ty}, 1, e.t)
    [] e.k = "bad" -> Begin(s, "bad", e.g, {}, 1, e.t)
    [] e.k = "wcs" -> Begin(s, "wcs", e.g, s.reg, 1, e.t)
    [] e.k = "infd" -> Done(IF e.obj = 0 THEN s ELSE [s EXCEPT !.obj[Min(W(s, e.g).tys)] = e.obj], e.g)
    [] e.k \in {"got", "badd", "wcsd"} -> Done(s, e.g)
    [] e.k = "list" -> [s EXCEPT !.nl[e.ty] = @ + 1, !.busy[e.ty] = @ + 1]
    [] e.k = "listed" -> [s EXCEPT !.busy[e.ty] = @ - 1, !.synced[e.ty] = IF @ < 0 /\ e.ok THEN e.t ELSE @]
    [] e.k = "open" -> [s EXCEPT !.open[e.ty] = @ \cup {e.w}]
    [] e.k = "closed" -> [s EXCEPT !.open[e.ty] = @ \ {e.w}]
    [] e.k = "chg" -> [s EXCEPT !.hist[e.ty][e.key] = Append(@, e.v)]
    [] e.k = "calm" -> [s EXCEPT !.low = [t \in Types |-> [k \in Ks |->
                          IF \E i \in 1..Len(e.ok) : e.ok[i] = t THEN Len(s.hist[t][k]) ELSE @[t][k]]],
                                 !.srv = e.srv]
    [] e.k = "built" -> [s EXCEPT !.reg = @ \cup {s.watched[i] : i \in 1..Len(s.watched)},
                                  !.sure = {s.watched[i] : i \in 1..Len(s.watched)}]
    [] e.k = "rs" -> [s EXCEPT !.rlow[e.c][e.key] = s.low[s.watched[e.c]][e.key]]
    [] e.k = "rr" -> IF e.r \in {"value", "absent"} THEN [s EXCEPT !.read[e.c][e.key] = e.v] ELSE s
    [] e.k = "mstart" -> [s EXCEPT !.ph = 1, !.req = s.sure]
    [] e.k = "idle" -> [s EXCEPT !.ph = IF @ = 1 THEN 2 ELSE @, !.sure = s.reg]
    [] e.k = "stop" -> [s EXCEPT !.ph = 3]
    [] e.k = "ended" -> [s EXCEPT !.ph = 4]
    [] OTHER -> s
=============================================================================
