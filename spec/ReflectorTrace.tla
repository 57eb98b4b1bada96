---------------------------- MODULE ReflectorTrace ---------------------------
(* Recorded runs of the real Reflector against a faulty API and store.      *)
EXTENDS Reflector, DetTrace

P(cfg, c) == cfg.chk \o ":" \o c
XInit(cfg) == [r |-> RInit, cfg |-> cfg, open |-> {}, over |-> FALSE]

\* what the reflector was told to expect
Expected(x, o) ==
  CASE x.how = "none" -> TRUE
    [] x.how = "class" -> o.cls = x.cls
    [] OTHER -> o.shape = "dict" /\ o.g = x.g /\ o.v = x.v /\ o.kind = x.kind /\ o.typed
\* nothing can be done with an object without metadata or version
Understood(o) == o.meta
Accepted(x, o) == Expected(x, o) /\ Understood(o)
OpOf(ty) == CASE ty = "ADDED" -> "add" [] ty = "MODIFIED" -> "update" [] ty = "DELETED" -> "delete" [] OTHER -> ""

XVerdict(s, e) ==
  LET r == s.r IN
  IF s.over /\ e.k \in {"list", "watch", "op", "rs"} THEN P(s.cfg, "active after the stop")
  ELSE IF Late(r, e.t) THEN P(s.cfg, "did not list again")
  ELSE CASE e.k = "list" ->
              IF CanList(r) THEN (IF TooSoon(r, e.t) THEN P(s.cfg, "listed again at once")
                                 ELSE IF e.rv = 0 THEN "" ELSE P(s.cfg, "list options"))
              ELSE IF r.ph \in {"open", "watch"} THEN P(s.cfg, "listed instead of watching")
              ELSE P(s.cfg, "listed twice")
         [] e.k = "listed" -> IF r.ph = "listing" THEN "" ELSE P(s.cfg, "driver")
         [] e.k = "watch" ->
              IF CanWatch(r, e.rv) THEN (IF TimeoutOk(e.to) THEN "" ELSE P(s.cfg, "watch timeout"))
              ELSE IF r.ph \in {"open", "either"} THEN P(s.cfg, "watched from the wrong version")
              ELSE P(s.cfg, "watched instead of listing")
         [] e.k = "opened" -> ""
         [] e.k = "we" -> ""
         [] e.k = "wend" -> ""
         [] e.k = "op" ->
              IF e.op = "replace" THEN (IF CanReplace(r, e.rv, e.ids) THEN "" ELSE P(s.cfg, "replaced with something else"))
              ELSE IF CanOp(Drain(r), e.op, e.id) THEN ""
              ELSE P(s.cfg, "event lost, repeated, out of order or not acceptable")
         [] e.k = "opend" -> ""
         [] e.k = "rs" -> IF s.cfg.period > 0 THEN "" ELSE P(s.cfg, "resync not asked for")
         [] e.k = "rsend" -> ""
         [] e.k = "rv" -> IF e.v \in r.last THEN "" ELSE P(s.cfg, "last sync version")
         [] e.k = "idle" -> IF StuckAtIdle(r) THEN P(s.cfg, "stopped working") ELSE ""
         [] e.k = "close" -> ""
         [] e.k = "stop" -> ""
         [] e.k = "ended" -> IF ~r.stopped THEN P(s.cfg, "ended by itself")
                             ELSE IF s.open # {} THEN P(s.cfg, "left a watch open")
                             ELSE IF e.left > 0 THEN P(s.cfg, "left tasks running") ELSE ""
         [] e.k = "fin" -> IF r.stopped /\ ~s.over THEN P(s.cfg, "did not stop") ELSE ""
         [] OTHER -> P(s.cfg, e.k)

XStep(s, e) ==
  LET r == s.r
      n == CASE e.k = "list" -> List(r)
             [] e.k = "listed" -> IF e.ok THEN Listed(r, e.rv, e.ids) ELSE Relist(r, e.t)
             [] e.k = "watch" -> Watch(r, e.rv)
             [] e.k = "opened" -> IF e.ok THEN Opened(r, e.t) ELSE Relist(r, e.t)
             [] e.k = "we" ->
                  IF e.ty = "ERROR" THEN [r EXCEPT !.end = "bad"]
                  ELSE IF ~Accepted(s.cfg.x, e.o) THEN Skipped(r, IF Expected(s.cfg.x, e.o) THEN e.o.rv ELSE 0)
                  ELSE IF OpOf(e.ty) # "" THEN Arrive(r, OpOf(e.ty), e.o.id, e.o.rv, TRUE)
                  ELSE IF e.ty = "BOOKMARK" THEN Bookmark(r, e.o.rv)
                  ELSE Skipped(r, e.o.rv)
             [] e.k = "wend" -> [r EXCEPT !.end = IF @ = "" THEN e.how ELSE @]
             [] e.k = "op" -> [Drain(r) EXCEPT !.busy = e.op]
             [] e.k = "opend" -> IF r.busy = "replace" THEN Replaced(r, e.ok, e.t)
                                 ELSE IF r.busy = "" \/ r.q = << >> THEN [r EXCEPT !.busy = ""] ELSE OpDone(r)
             [] e.k = "rsend" -> IF e.ok \/ r.ph \notin {"open", "opening", "watch", "either"} THEN r
                                 ELSE [r EXCEPT !.rsf = e.t]
             [] e.k = "stop" -> [r EXCEPT !.stopped = TRUE]
             [] OTHER -> r
      m == IF e.k \in {"we", "wend", "opend", "opened", "rsend"} THEN Settle(n, e.t) ELSE n
  IN [s EXCEPT !.r = m,
               !.open = IF e.k = "opened" /\ e.ok THEN @ \cup {e.w} ELSE IF e.k = "close" THEN @ \ {e.w} ELSE @,
               !.over = @ \/ e.k = "ended"]
=============================================================================
