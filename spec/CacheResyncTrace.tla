--------------------------- MODULE CacheResyncTrace ---------------------------
(* Recorded repeated updates of the cache's informers.                       *)
EXTENDS CacheResync, DetTrace
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
ASlack == 16
AInit(cfg) == [r |-> cfg.resync * 1024, h |-> << >>, p |-> << >>]
P(s, ty) == IF ty \in DOMAIN s.p THEN s.p[ty] ELSE 0
Late(s, t) == \E x \in DOMAIN s.h : \/ (s.r > 0 /\ Overdue(s.h[x], t, s.r))
                                    \/ (~InRound(s.h[x], t) /\ ~Complete(s.h[x]))
AVerdict(s, e) ==
  CASE e.k \in {"handler", "start", "list", "listed", "open", "closed"} -> ""
    [] e.k \in {"see", "gone", "end"} -> IF Late(s, e.t) THEN "C15:resync of the cache missed" ELSE ""
    [] e.k = "again" ->
         LET h == s.h[e.h] IN
         IF s.r = 0 THEN "C15:repeat though the cache asked for none"
         ELSE IF e.key \notin DOMAIN h.known \/ h.known[e.key] # e.v THEN "C15:repeat of what the handler does not know"
         ELSE IF InRound(h, e.t) /\ e.key \in h.round THEN "C15:repeated twice in a round"
         ELSE IF Late(s, e.t) THEN "C15:resync of the cache missed"
         ELSE IF InRound(h, e.t) \/ Due(h, e.t, s.r, P(s, h.ty)) THEN "" ELSE "C15:period of the cache's resync"
    [] OTHER -> "C15:" \o e.k
AStep(s, e) ==
  CASE e.k = "handler" -> [s EXCEPT !.h = Put(@, e.h, IF e.h \in DOMAIN @ THEN @[e.h] ELSE NewHandler(e.ty, e.t))]
    [] e.k = "see" -> [s EXCEPT !.h[e.h] = See(@, e.key, e.v, e.t)]
    [] e.k = "gone" -> [s EXCEPT !.h[e.h] = Forget(@, e.key)]
    [] e.k = "again" ->
         LET h == s.h[e.h] IN
         [s EXCEPT !.h[e.h] = Again(h, e.key, e.t),
                   !.p = IF h.last >= 0 /\ ~InRound(h, e.t) THEN Put(@, h.ty, e.t - h.last) ELSE @]
    [] OTHER -> s
===============================================================================
