------------------------------ MODULE MCInformer ------------------------------
(***************************************************************************)
(* The design of an informer end to end: an API server that changes its    *)
(* objects, list-and-watch with breaks after which it lists again, the      *)
(* delta queue, the store, resyncs for whichever handlers are due, and one  *)
(* queue of notifications per handler.  The monitor of Informer.tla, which  *)
(* judges the recorded runs of the real informers, watches it: the design   *)
(* must satisfy it in every state.                                          *)
(*  hist   the server's changes; version i is the i-th      rv   reached    *)
(*  f      the delta queue and the store (f.known)          due  handlers   *)
(*  the last resync is for       q    notifications not delivered yet       *)
(*  m      the monitor           bad  what it objected to                   *)
(***************************************************************************)
EXTENDS DeltaFifo
M == INSTANCE Informer
CONSTANTS Keys, Hs, Slow, MaxEv, MaxBreaks, MaxResyncs, Count
VARIABLES hist, rv, mode, f, due, q, m, bad, breaks, resyncs
\* changes are counted in models of their own
C(x) == IF Count THEN x ELSE [x EXCEPT !.trans = 0]
vars == <<hist, rv, mode, f, due, q, m, bad, breaks, resyncs>>

Step(map, v) == LET c == hist[v] IN IF c.del THEN Del(map, c.k) ELSE Put(map, c.k, v)
RECURSIVE At(_)
At(v) == IF v = 0 THEN << >> ELSE Step(At(v - 1), v)
RECURSIVE SeqOf(_)
SeqOf(map) == IF DOMAIN map = {} THEN << >>
              ELSE LET k == CHOOSE k \in DOMAIN map : \A j \in DOMAIN map : map[k] <= map[j]
                   IN <<[key |-> k, v |-> map[k], o |-> map[k]]>> \o SeqOf(Del(map, k))

Init == /\ hist = << >> /\ rv = 0 /\ mode = "list" /\ f = DF0(TRUE) /\ due = {} /\ q = << >>
        /\ m = M!Start(M!IInit(0)) /\ bad = "" /\ breaks = 0 /\ resyncs = 0

Change == /\ Len(hist) < MaxEv
          /\ \E k \in Keys, d \in BOOLEAN : /\ d => k \in DOMAIN At(Len(hist))
                                            /\ hist' = Append(hist, [k |-> k, del |-> d])
          /\ UNCHANGED <<rv, mode, f, due, q, m, bad, breaks, resyncs>>
List == /\ mode = "list" /\ mode' = "watch" /\ rv' = Len(hist)
        /\ LET l == SeqOf(At(Len(hist))) IN
             /\ f' \in FReplace(f, l)
             /\ m' = C(M!GotList(m, l, rv', 0))
        /\ UNCHANGED <<hist, due, q, bad, breaks, resyncs>>
Stream == /\ mode = "watch" /\ rv < Len(hist) /\ rv' = rv + 1
          /\ LET c == hist[rv'] IN
               IF c.del THEN f' = FDelete(f, c.k, rv') /\ m' = C(M!GotEvent(m, "DELETED", c.k, rv', 0))
               ELSE f' = FAdd(f, IF c.k \in DOMAIN At(rv) THEN "U" ELSE "A", c.k, rv') /\ m' = C(M!GotEvent(m, "MODIFIED", c.k, rv', 0))
          /\ UNCHANGED <<hist, mode, due, q, bad, breaks, resyncs>>
Break == /\ mode = "watch" /\ breaks < MaxBreaks /\ mode' = "list" /\ breaks' = breaks + 1
         /\ UNCHANGED <<hist, rv, f, due, q, m, bad, resyncs>>
Resync == /\ mode = "watch" /\ resyncs < MaxResyncs /\ resyncs' = resyncs + 1
          /\ f' \in FResync(f) /\ due' \in SUBSET (DOMAIN q) \ {{}}
          /\ UNCHANGED <<hist, rv, mode, q, m, bad, breaks>>

\* the notifications for deltas ds of key k, given the store, and who gets each
RECURSIVE Notes(_, _, _)
Notes(st, k, ds) ==
  IF ds = << >> THEN << >>
  ELSE LET d == Head(ds) IN
       IF d.t = "D" THEN <<[op |-> "delete", key |-> k, old |-> d.o, new |-> 0, all |-> TRUE]>> \o Notes(Del(st, k), k, Tail(ds))
       ELSE IF k \in DOMAIN st
            THEN <<[op |-> "update", key |-> k, old |-> st[k], new |-> d.o, all |-> d.t # "S" \/ d.o # st[k]]>>
                 \o Notes(Put(st, k, d.o), k, Tail(ds))
            ELSE <<[op |-> "add", key |-> k, old |-> 0, new |-> d.o, all |-> TRUE]>> \o Notes(Put(st, k, d.o), k, Tail(ds))
For(h, ns) == SelectSeq(ns, LAMBDA n : n.all \/ h \in due)
\* apply one item to the store and tell the handlers
Process == /\ CanPop(f)
           /\ LET g == FTake(f)
                  st == ApplyDeltas(g.known, g.busy, g.cur)
                  ns == Notes(g.known, g.busy, g.cur) IN
                /\ f' = [FEnd(g, "ok") EXCEPT !.known = st]
                /\ q' = [h \in DOMAIN q |-> q[h] \o For(h, ns)]
                /\ m' = M!SeenStore(m, st)
                /\ bad' = IF ~M!StoreKnown(m, st) THEN "unknown version" ELSE IF ~M!StoreForward(m, st) THEN "older version" ELSE bad
           /\ UNCHANGED <<hist, rv, mode, due, breaks, resyncs>>
\* a handler added now is first told about everything in the store
AddHandler(h) == /\ h \notin DOMAIN q
                 /\ q' = Put(q, h, [i \in 1..Len(SeqOf(f.known)) |->
                                      [op |-> "add", key |-> SeqOf(f.known)[i].key, old |-> 0, new |-> SeqOf(f.known)[i].v, all |-> TRUE]])
                 /\ m' = [M!AddHandler(m, h, 0, 0) EXCEPT !.h[h].ready = TRUE,
                                                     !.h[h].nt = IF Count /\ m.dlv = << >> /\ f.known = << >> /\ ~CanPop(f) THEN m.trans ELSE -1]
                 /\ UNCHANGED <<hist, rv, mode, f, due, bad, breaks, resyncs>>
Deliver(h) == /\ h \in DOMAIN q /\ q[h] # << >> /\ ~m.h[h].busy
              /\ LET n == Head(q[h]) IN
                   /\ bad' = IF M!Coherent(m, m.h[h], n) THEN bad ELSE "incoherent"
                   /\ m' = [m EXCEPT !.h[h] = [M!Told(@, n) EXCEPT !.calls = 0]]
                   /\ q' = [q EXCEPT ![h] = Tail(@)]
              /\ UNCHANGED <<hist, rv, mode, f, due, breaks, resyncs>>
Return(h) == /\ h \in DOMAIN q /\ m.h[h].busy
             /\ m' = [m EXCEPT !.h[h].busy = FALSE]
             /\ UNCHANGED <<hist, rv, mode, f, due, q, bad, breaks, resyncs>>

Next == Change \/ List \/ Stream \/ Break \/ Resync \/ Process \/ \E h \in Hs : AddHandler(h) \/ Deliver(h) \/ Return(h)
\* handlers may take for ever; those not in Slow come back
Spec == Init /\ [][Next]_vars /\ WF_vars(List) /\ WF_vars(Stream) /\ WF_vars(Process)
        /\ \A h \in Hs : WF_vars(Deliver(h)) /\ (h \notin Slow => WF_vars(Return(h)))

NothingBad == bad = ""
\* the delta queue holds what is missing from the store
Pipeline == FWellFormed(f) /\ NoTwoDeletes(f) /\ (rv > 0 \/ mode = "watch" => Converges(f) /\ f.truth = m.dlv)
SyncTruth == Synced(f) => M!SyncedTrue(m, f.known)
\* what a handler was told plus what it will be told is the store
RECURSIVE Fold(_, _)
Fold(map, ns) == IF ns = << >> THEN map
                 ELSE Fold(IF Head(ns).op = "delete" THEN Del(map, Head(ns).key) ELSE Put(map, Head(ns).key, Head(ns).new), Tail(ns))
NothingMissed == \A h \in DOMAIN q : Fold(m.h[h].known, q[h]) = f.known
\* and each change is told by itself
EachTold == \A h \in DOMAIN q : ~CanPop(f) /\ q[h] = << >> => M!AllTold(m, m.h[h])
SyncStays == [][Synced(f) => Synced(f')]_vars
Converged == <>[](f.known = At(Len(hist)))
UpToDate(h) == h \in DOMAIN q /\ m.h[h].known = f.known /\ f.known = At(Len(hist))
Informed == \A h \in Hs \ Slow : (h \in DOMAIN q) ~> UpToDate(h)
=============================================================================
