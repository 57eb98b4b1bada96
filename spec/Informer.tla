------------------------------- MODULE Informer ------------------------------
(***************************************************************************)
(* What an informer owes its users, as a monitor over what the API server  *)
(* hands it (lists, watch events), what its store shows, and what its      *)
(* handlers are told.                                                      *)
(*  s.dlv   objects (key -> version) according to what was handed over     *)
(*  s.vers  every <<key, version>> handed over                             *)
(*  s.trans how many changes of objects were handed over                   *)
(*  s.chg   key -> when it last changed in dlv                             *)
(*  s.top   key -> highest version seen in the store or deleted from it    *)
(*  s.st    the store as last seen                                         *)
(*  s.list1 first list, {} while there was none (a set of functions)       *)
(*  s.gone  keys whose deletion was handed over since the first list       *)
(*  s.h     handlers: [known, seen, ready, busy, pause, base, lo, bt, got, *)
(*          eff, cred, calls, nt]                                            *)
(*  s.P     resync check period; s.S when the current list-and-watch round *)
(*          began (-1: none); s.susp: between two watches of the round     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put1(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del1(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Get0(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
FromList(l) == [k \in {l[i].key : i \in 1..Len(l)} |->
                  l[CHOOSE i \in 1..Len(l) : l[i].key = k /\ \A j \in 1..Len(l) : l[j].key = k => j <= i].v]
Pairs(f) == {<<k, f[k]>> : k \in DOMAIN f}
IMax(a, b) == IF a > b THEN a ELSE b
IMin(a, b) == IF a < b THEN a ELSE b

Sec == 1024
Empty == [x \in {} |-> 0]
IInit(default) == [dlv |-> Empty, vers |-> {}, chg |-> Empty, top |-> Empty, st |-> Empty,
                   list1 |-> {}, gone |-> {}, synced |-> FALSE, trans |-> 0, rv |-> 0, h |-> << >>,
                   default |-> default, P |-> default, S |-> -1, credt |-> -1, susp |-> TRUE,
                   started |-> FALSE, stopped |-> FALSE, over |-> FALSE, late |-> {}, ws |-> {}, ended |-> ""]

(************************** what the server hands over *********************)
Change(s, new, t) ==
  LET ks == {k \in DOMAIN s.dlv \cup DOMAIN new : Get0(s.dlv, k) # Get0(new, k)}
      gone == DOMAIN s.dlv \ DOMAIN new IN
  [s EXCEPT !.dlv = new, !.vers = @ \cup Pairs(new), !.gone = @ \cup gone, !.trans = @ + Cardinality(ks),
            !.h = [i \in DOMAIN @ |-> IF @[i].slow THEN [@[i] EXCEPT !.since = [k \in DOMAIN @ \ ks |-> @[k]]] ELSE @[i]],
            !.chg = [k \in DOMAIN @ \cup ks |-> IF k \in ks THEN t ELSE @[k]]]
Listed(h, ks) == IF ~h.slow THEN [h EXCEPT !.cred = @ \cup ks] ELSE
                 [h EXCEPT !.cred = @ \cup ks, !.since = Empty,
                           !.lists = [k \in DOMAIN @ \cup ks |-> Get0(@, k) + (IF k \in ks THEN 1 ELSE 0)]]
GotList(s, l, rv, t) ==
  LET new == FromList(l)
      a == Change(s, new, t) IN
  [a EXCEPT !.list1 = IF @ = {} THEN {new} ELSE @, !.rv = rv, !.S = t, !.credt = t, !.susp = FALSE,
            !.h = [i \in DOMAIN @ |-> Listed(@[i], DOMAIN new)]]
GotEvent(s, ty, k, v, t) ==
  LET new == IF ty = "DELETED" THEN Del1(s.dlv, k) ELSE Put1(s.dlv, k, v)
      a == Change(s, new, t) IN
  [a EXCEPT !.vers = @ \cup {<<k, v>>}, !.rv = v]

(******************************* the store ********************************)
StoreKnown(s, st) == Pairs(st) \subseteq s.vers
StoreForward(s, st) == \A k \in DOMAIN st : /\ st[k] >= Get0(s.top, k)
                                            /\ k \notin DOMAIN s.st => st[k] > Get0(s.top, k)
SeenStore(s, st) == [s EXCEPT !.st = st,
   !.top = [k \in DOMAIN s.top \cup DOMAIN st |-> IMax(Get0(s.top, k), Get0(st, k))]]

(******************************** syncing *********************************)
SyncedTrue(s, st) == /\ s.list1 # {}
                     /\ \A l \in s.list1 : \A k \in DOMAIN l : k \in s.gone \/ (k \in DOMAIN st /\ st[k] >= l[k])

(******************************* handlers *********************************)
\* a repeated update: a resync, or a relist that found nothing new
Repeat(n) == n.op = "update" /\ n.old = n.new
\* the period a handler asked for, at least a second
Clamp(r) == IF r > 0 /\ r < Sec THEN Sec ELSE r
Asked(s, req) == Clamp(IF req < 0 THEN s.default ELSE req)
\* smallest period asked for before the start
NewP(s, req) == IF ~s.started /\ Asked(s, req) > 0 /\ Asked(s, req) < s.P THEN Asked(s, req) ELSE s.P
Eff(ask, P) == IF ask = 0 \/ P = 0 THEN 0 ELSE IMax(ask, P)
AddHandler(s, id, req, t) ==
  IF s.stopped /\ s.over THEN [s EXCEPT !.late = @ \cup {id}]
  ELSE LET p == NewP(s, req)
           h == [known |-> Empty, seen |-> Empty, ready |-> FALSE, busy |-> FALSE, pause |-> -1,
                 slow |-> FALSE, reps |-> Empty, since |-> Empty, lists |-> Empty,
                 lo |-> t + Eff(Asked(s, req), p), bt |-> -1, got |-> {}, ask |-> Asked(s, req),
                 cred |-> IF s.started THEN DOMAIN s.dlv ELSE {}, calls |-> 0, add |-> t,
                 nt |-> IF s.started THEN -1 ELSE 0]
       IN [s EXCEPT !.P = p, !.h = Put1(@, id, h)]
Start(s) == [s EXCEPT !.started = TRUE]
EffOf(s, h) == Eff(h.ask, s.P)
LoOf(s, h) == IF h.bt < 0 THEN h.add + EffOf(s, h) ELSE h.bt + EffOf(s, h)

\* the notification follows on from what the handler was told before
Coherent(s, h, n) ==
  CASE n.op = "add" -> n.key \notin DOMAIN h.known /\ n.new > Get0(h.seen, n.key) /\ <<n.key, n.new>> \in s.vers
    [] n.op = "update" -> /\ n.key \in DOMAIN h.known /\ h.known[n.key] = n.old
                          /\ n.new >= n.old /\ <<n.key, n.new>> \in s.vers
    [] n.op = "delete" -> /\ n.key \in DOMAIN h.known
                          /\ n.old = h.known[n.key] \/ (n.old > h.known[n.key] /\ <<n.key, n.old>> \in s.vers)
    [] OTHER -> FALSE
Told(h, n) ==
  [h EXCEPT !.known = IF n.op = "delete" THEN Del1(@, n.key) ELSE Put1(@, n.key, n.new),
            !.seen = Put1(@, n.key, IMax(Get0(@, n.key), IF n.op = "delete" THEN n.old ELSE n.new)),
            !.nt = IF @ < 0 \/ Repeat(n) THEN @ ELSE @ + 1,
            !.busy = TRUE, !.calls = @ + 1]
IsResync(s, h, n, t) == Repeat(n) /\ ~(n.key \in h.cred /\ s.credt = t /\ h.bt # t)
ResyncDue(s, h, n, t) == /\ EffOf(s, h) > 0
                         /\ (h.bt = t /\ n.key \notin h.got) \/ (h.bt # t /\ t + 2 >= LoOf(s, h))
\* a handler that is slow hears of a resync at any time after it: only how
\* many there were can be told, at most one for each of its periods (and for
\* each list), at least one for each of its periods and a check period
ManyResyncs(s, h, n, t) ==
  Get0(h.reps, n.key) + 1 > Get0(h.lists, n.key) + (IF EffOf(s, h) = 0 THEN 0 ELSE (t - h.add + 2) \div EffOf(s, h))
FewResyncs(s, h, t) ==
  /\ h.slow /\ EffOf(s, h) > 0 /\ s.S >= 0 /\ ~s.susp
  /\ \E k \in DOMAIN s.dlv :
       LET from == IMax(IMax(h.add, s.S), Get0(s.chg, k)) IN
       Get0(h.since, k) < (t - from) \div (EffOf(s, h) + s.P + 4) - 1
Repeated(h, n) == [h EXCEPT !.reps = Put1(@, n.key, Get0(@, n.key) + 1),
                            !.since = Put1(@, n.key, Get0(@, n.key) + 1)]
Resynced(h, n, t) == IF h.bt = t THEN [h EXCEPT !.got = @ \cup {n.key}]
                     ELSE [h EXCEPT !.bt = t, !.got = {n.key}]

\* the handler cannot be expected to have everything now
Excused(h, t) == h.busy \/ t <= h.pause \/ ~h.ready

(************************** when nothing is left to run *******************)
Behind(s, t) == {i \in DOMAIN s.h : ~Excused(s.h[i], t) /\ s.h[i].known # s.dlv}
\* every change handed over was told one by one: none merged into another, none
\* left out (counted from the start, or since a late handler first had everything)
AllTold(s, h) == h.nt < 0 \/ h.nt = s.trans
Running(s) == s.started /\ ~s.stopped
ResyncComplete(s, t) == \A i \in DOMAIN s.h :
   LET h == s.h[i] IN
   h.bt = t /\ ~h.slow => \A k \in DOMAIN s.dlv : k \in h.got \/ Get0(s.chg, k) = t \/ (k \in DOMAIN s.chg /\ s.chg[k] = t)
ResyncInTime(s, t) == \A i \in DOMAIN s.h :
   LET h == s.h[i] IN
   EffOf(s, h) > 0 /\ s.S >= 0 /\ ~s.susp /\ h.ready /\ ~h.slow => t <= IMax(LoOf(s, h), s.S) + s.P + 4
=============================================================================
