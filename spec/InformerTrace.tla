---------------------------- MODULE InformerTrace ----------------------------
(* Recorded runs of the real informers. cfg.chk names the property whose    *)
(* clauses count; cfg.simple: a plain (not shared) informer, whose handler  *)
(* is called while the store is being changed.                              *)
EXTENDS Informer, DetTrace

YInit(cfg) == IInit(cfg.default) @@ [cfg |-> cfg, pend |-> {}, adding |-> {}]

\* clauses of a verdict: <<property, holds, text>>
Pick(s, cl) == LET no == {i \in 1..Len(cl) : ~cl[i][2] /\ (s.cfg.chk = "all" \/ cl[i][1] = s.cfg.chk)}
               IN IF no = {} THEN ""
                  ELSE LET c == cl[CHOOSE i \in no : \A j \in no : i <= j] IN c[1] \o ":" \o c[3]

AnyBusy(s) == \E i \in DOMAIN s.h : s.h[i].busy

NVerdict(s, e) ==
  IF e.h \in s.late THEN Pick(s, <<<<"C22", FALSE, "a handler added after the stop was called">>>>)
  ELSE LET h == s.h[e.h] IN
  Pick(s, <<
    <<"C22", ~s.over, "handler called after the end">>,
    <<"C02", Coherent(s, h, e), "incoherent notification">>,
    <<"C21", Coherent(s, h, e), "missed something or got it out of order">>,
    <<"C02", ~h.busy, "handler called twice at once">>,
    <<"C15", s.cfg.chk = "C15" /\ ~h.slow /\ IsResync(s, h, e, e.t) => ResyncDue(s, h, e, e.t), "resync not due">>,
    <<"C15", s.cfg.chk = "C15" /\ h.slow /\ Repeat(e) => ~ManyResyncs(s, h, e, e.t), "resynced too often">>
  >>)
PVerdict(s, e) ==
  LET st == FromList(e.store) IN
  Pick(s, <<
    <<"C01", Len(e.store) = Cardinality(DOMAIN st), "object twice in the store">>,
    <<"C01", StoreKnown(s, st), "a version the server did not have">>,
    <<"C01", StoreForward(s, st), "back to an older version">>,
    <<"C05", e.synced => SyncedTrue(s, st), "synced too early">>,
    <<"C05", s.synced => e.synced, "no longer synced">>,
    <<"C22", TRUE, "">>
  >>)
IdleVerdict(s, e) ==
  LET st == FromList(e.store)
      live == Running(s) /\ ~(s.cfg.simple /\ AnyBusy(s)) IN
  Pick(s, <<
    <<"C01", live => st = s.dlv, "store differs from what the server sent">>,
    <<"C21", live => st = s.dlv, "store held up">>,
    <<"C05", live /\ s.list1 # {} => e.synced, "not synced though all is in the store">>,
    <<"C14", live /\ s.list1 # {} => e.rv = s.rv, "last sync version">>,
    <<"C02", live => \A i \in DOMAIN s.h : Excused(s.h[i], e.t) \/ s.h[i].known = s.dlv, "handler not told everything">>,
    <<"C21", live => Behind(s, e.t) = {}, "handler held up">>,
    <<"C21", live => \A i \in DOMAIN s.h : Excused(s.h[i], e.t) \/ AllTold(s, s.h[i]), "changes left out">>,
    <<"C21", live => s.adding = {}, "adding a handler held up">>,
    <<"C15", s.cfg.chk = "C15" /\ Running(s) => ResyncComplete(s, e.t), "resync left objects out">>,
    <<"C15", s.cfg.chk = "C15" /\ Running(s) => ResyncInTime(s, e.t), "resync overdue">>,
    <<"C22", s.stopped /\ ~s.over => AnyBusy(s), "did not finish">>
  >>)
QuietVerdict(s, e) ==
  LET srv == FromList(e.srv)
      st == FromList(e.store) IN
  Pick(s, <<
    <<"C01", st = srv, "did not converge">>,
    <<"C05", e.synced, "never synced">>,
    <<"C02", \A i \in DOMAIN s.h : s.h[i].known = st, "handler disagrees with the store">>,
    <<"C15", s.cfg.chk = "C15" => \A i \in DOMAIN s.h : ~FewResyncs(s, s.h[i], e.t), "resynced too seldom">>,
    <<"C21", \A i \in DOMAIN s.h : AllTold(s, s.h[i]), "slow handler was not told of every change">>,
    <<"C21", \A i \in DOMAIN s.h : s.h[i].known = st, "slow handler did not get everything">>
  >>)

YVerdict(s, e) ==
  CASE e.k = "n" -> NVerdict(s, e)
    [] e.k = "p" -> PVerdict(s, e)
    [] e.k = "idle" -> (LET p == PVerdict(s, e) IN IF p # "" THEN p ELSE IdleVerdict(s, e))
    [] e.k = "quiet" -> QuietVerdict(s, e)
    [] e.k = "ended" -> Pick(s, <<
         <<"C01", s.stopped, "ended by itself">>,
         <<"C21", s.stopped, "ended by itself">>,
         <<"C22", e.r = "cancelled", "ended without cancellation">>,
         <<"C22", s.ws = {}, "left a watch open">> >>)
    [] e.k = "left" -> Pick(s, <<<<"C22", e.n = 0, "left tasks running">>>>)
    [] e.k = "fin" -> Pick(s, <<<<"C22", s.over, "did not finish">>>>)
    [] e.k \in {"list", "watch"} -> Pick(s, <<<<"C22", ~s.over, "API call after the end">>>>)
    [] e.k \in {"listed", "opened", "we", "wend", "close", "addh", "addhret", "ne", "start", "stop"} -> ""
    [] OTHER -> s.cfg.chk \o ":" \o e.k

YStep(s, e) ==
  CASE e.k = "listed" -> IF e.ok THEN GotList(s, e.l, e.rv, e.t) ELSE s
    [] e.k = "list" -> [s EXCEPT !.S = -1]
    [] e.k = "opened" -> IF e.ok THEN [s EXCEPT !.ws = @ \cup {e.w}, !.susp = FALSE] ELSE [s EXCEPT !.susp = TRUE]
    [] e.k = "close" -> [s EXCEPT !.ws = @ \ {e.w}]
    [] e.k = "wend" -> [s EXCEPT !.susp = TRUE]
    [] e.k = "we" -> IF e.ty = "ERROR" THEN [s EXCEPT !.susp = TRUE]
                     ELSE IF e.ty = "BOOKMARK" THEN [s EXCEPT !.rv = e.v]
                     ELSE GotEvent(s, e.ty, e.key, e.v, e.t)
    [] e.k = "addh" -> LET a == AddHandler(s, e.h, e.req, e.t) IN
                     [a EXCEPT !.adding = @ \cup {e.h},
                               !.h = [i \in DOMAIN @ |-> IF i = e.h THEN [@[i] EXCEPT !.slow = e.slow] ELSE @[i]]]
    [] e.k = "addhret" -> [s EXCEPT !.adding = @ \ {e.h},
                              !.h = [i \in DOMAIN @ |-> IF i = e.h THEN [@[i] EXCEPT !.ready = TRUE] ELSE @[i]]]
    [] e.k = "n" -> IF e.h \notin DOMAIN s.h THEN s
                    ELSE LET h == s.h[e.h]
                             a == IF h.slow THEN (IF Repeat(e) THEN Repeated(h, e) ELSE h)
                                  ELSE IF IsResync(s, h, e, e.t) THEN Resynced(h, e, e.t)
                                  ELSE IF Repeat(e) THEN [h EXCEPT !.cred = @ \ {e.key}] ELSE h
                         IN [s EXCEPT !.h = Put1(@, e.h, Told(a, e))]
    [] e.k = "ne" -> IF e.h \notin DOMAIN s.h THEN s
                     ELSE [s EXCEPT !.h[e.h].busy = FALSE,
                                    !.h[e.h].pause = IF e.r = "raise" THEN e.t + 62 * Sec ELSE @]
    [] e.k \in {"p", "idle"} ->
         LET a == SeenStore(s, FromList(e.store)) IN
         [a EXCEPT !.synced = @ \/ e.synced,
                   !.h = IF e.k = "idle" THEN [i \in DOMAIN @ |-> [@[i] EXCEPT !.cred = {},
                           !.nt = IF @ < 0 /\ ~Excused(s.h[i], e.t) /\ s.h[i].known = s.dlv THEN s.trans ELSE @]] ELSE @]
    [] e.k = "start" -> Start(s)
    [] e.k = "stop" -> [s EXCEPT !.stopped = TRUE]
    [] e.k = "ended" -> [s EXCEPT !.over = TRUE, !.stopped = TRUE]
    [] OTHER -> s
=============================================================================
