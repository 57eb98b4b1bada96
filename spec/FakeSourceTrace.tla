---------------------------- MODULE FakeSourceTrace ---------------------------
(* Recorded uses of the real FakeControllerSource and FakeWatcher. Results   *)
(* are strings. cfg.kind tells the two apart.                                *)
EXTENDS FakeSource, LinTrace

TXInit(cfg) == IF cfg.kind = "source" THEN FSInit @@ [kind |-> "source"]
               ELSE FWInit @@ [kind |-> "watcher"]
Show(k, n, rv) == ToString(k) \o "/" \o ToString(n) \o "/" \o ToString(rv)
EvRes(s, rv) == s.chg[rv].t \o " " \o Show(s.chg[rv].key, s.chg[rv].n, rv)
RECURSIVE ListRes(_, _)
ListRes(s, k) == IF k > 9 THEN "@" \o ToString(FSVersion(s))
                 ELSE (IF k \in DOMAIN s.items THEN Show(k, s.items[k].n, s.items[k].rv) \o " " ELSE "")
                      \o ListRes(s, k + 1)
O(st, r) == [st |-> st, res |-> r]

SourceApply(s, c) ==
  CASE c.op = "next" ->
         LET w == s.w[c.w] IN
         (IF w.buf # <<>> THEN {O(FSRead(s, c.w), EvRes(s, Head(w.buf)))} ELSE {})
         \cup (IF FSEnds(w) THEN {O(s, "end")} ELSE {})
    [] c.op = "stop" -> {O(FSStop(s, c.w), "ok")}
    [] s.shut -> {}
    [] c.op = "change" -> {O(FSChange(s, c.type, c.key, c.n, c.live), "ok")}
    [] c.op = "list" -> {O(s, ListRes(s, 1))}
    [] c.op = "watch" -> IF FSCanWatch(s, c.rv) THEN {O(FSWatch(s, c.id, c.rv), "ok")}
                         ELSE {O(s, "EXC:Exception")}
    [] c.op = "shutdown" -> {O(FSShutdown(s), "ok")}

WatcherApply(s, c) ==
  CASE c.op = "next" -> (IF FWCanRead(s) THEN {O(FWRead(s), Head(s.out).e)} ELSE {})
                        \cup (IF s.stop THEN {O(s, "end")} ELSE {})
    [] c.op = "stop" -> {O([s EXCEPT !.stop = TRUE], "ok")}

TXApply(s, c) == IF s.kind = "source" THEN SourceApply(s, c) ELSE WatcherApply(s, c)
TXEnv(s, e) == CASE e.op = "send" -> {FWSend(s, e.id, e.e)}
                 [] e.op = "reset" -> {FWReset(s, e.id)}
                 [] e.op = "unsend" -> FWUnsend(s, e.id)
                 [] e.op = "sent" -> IF e.id \in s.ack THEN {[s EXCEPT !.ack = @ \ {e.id}]} ELSE {}
TXInternal(s) == IF s.kind = "source" THEN {} ELSE IF FWResetDue(s) THEN {FWResetNow(s)} ELSE {}
TXQuiet(s) == IF s.kind = "source" THEN TRUE ELSE s.ack = {} /\ ~FWResetDue(s)
TXProbe(s, e) == s.stop = e.stop
TXCancel(s, c) == {}
TXDue(s) == {}
TXSetNow(s, t) == s
=============================================================================
