------------------------------ MODULE DeltaFifo ------------------------------
(***************************************************************************)
(* The delta queue.                                                        *)
(*   items   key -> non-empty sequence of deltas [t, f, o]                 *)
(*           t: "A"dded "U"pdated "D"eleted "S"ync; o: object version, or  *)
(*           0 for none; f: the deletion is a DeletedFinalStateUnknown     *)
(*   queue   keys in the order they became pending                        *)
(*   known   the consumer's known objects, key -> version                  *)
(*   busy    key being processed, or NB ; cur: its deltas                  *)
(*   init    pops still owed before the first list is consumed             *)
(*   truth   ghost: what the producer says exists, key -> version          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NB == "-none-"  \* nothing is being processed

DF0(hasKnown) == [items |-> << >>, queue |-> <<>>, known |-> << >>, hasKnown |-> hasKnown,
                  populated |-> FALSE, init |-> 0, closed |-> FALSE,
                  busy |-> NB, cur |-> <<>>, truth |-> << >>]

Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == (k :> v) @@ f
D(t, o) == [t |-> t, f |-> FALSE, o |-> o]
Dfsu(o) == [t |-> "D", f |-> TRUE, o |-> o]
Pending(f, k) == k \in DOMAIN f.items
Last(s) == s[Len(s)]

\* two deletions in a row are merged, keeping the one with the real object
Compress(ds) ==
  LET n == Len(ds) IN
  IF n < 2 \/ ds[n].t # "D" \/ ds[n-1].t # "D" THEN ds
  ELSE Append(SubSeq(ds, 1, n - 2), IF ds[n-1].f THEN ds[n] ELSE ds[n-1])

Queue(f, k, d) ==
  IF Pending(f, k) THEN [f EXCEPT !.items[k] = Compress(Append(@, d))]
  ELSE [f EXCEPT !.items = Put(@, k, <<d>>), !.queue = Append(@, k)]

Pop(f) == [f EXCEPT !.populated = TRUE]

FAdd(f, t, k, o) == [Queue(Pop(f), k, D(t, o)) EXCEPT !.truth = Put(@, k, o)]

\* a consumer whose lookup of a key it lists fails (Broken) or finds nothing (Nothing)
Broken == 0 - 1
Nothing == 0 - 2
KnownObj(f, k) == IF f.known[k] < 0 THEN 0 ELSE f.known[k]
MayKnow(f, k) == f.hasKnown /\ k \in DOMAIN f.known /\ f.known[k] # Nothing

FDelete(f, k, o) ==
  LET g == [Pop(f) EXCEPT !.truth = Del(@, k)] IN
  IF Pending(f, k) \/ MayKnow(f, k) THEN Queue(g, k, D("D", o)) ELSE g

\* deletion found by a relist: the last object the queue or the consumer knew
Gone(f, k) == Dfsu(IF Pending(f, k) THEN Last(f.items[k]).o ELSE KnownObj(f, k))

RECURSIVE QueueAll(_, _)
QueueAll(f, l) == IF l = <<>> THEN f
                  ELSE QueueAll(Queue(f, Head(l).key, D("S", Head(l).o)), Tail(l))
RECURSIVE QueueGone(_, _)
QueueGone(f, ks) == IF ks = <<>> THEN f
                    ELSE QueueGone(Queue(f, Head(ks), Gone(f, Head(ks))), Tail(ks))

ListTruth(l) == [k \in {l[i].key : i \in 1..Len(l)} |->
                   l[CHOOSE i \in 1..Len(l) : l[i].key = k /\ \A j \in i+1..Len(l) : l[j].key # k].o]
Perms(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}

\* the deletions of one relist may be queued in any order
FReplace(f, l) ==
  LET listed == {l[i].key : i \in 1..Len(l)}
      missing == (DOMAIN f.items \cup (IF f.hasKnown THEN DOMAIN f.known ELSE {})) \ listed
      fresh == missing \ DOMAIN f.items
      old == missing \cap DOMAIN f.items
      mark(g) == IF f.populated THEN g
                 ELSE [g EXCEPT !.populated = TRUE,
                                !.init = Cardinality(listed) + Cardinality(missing)]
  IN {mark([QueueGone(QueueGone(QueueAll(f, l), p), q) EXCEPT !.truth = ListTruth(l)]) :
        p \in {CHOOSE p \in Perms(old) : TRUE}, q \in Perms(fresh)}

\* resync: exactly the known objects without pending changes, in any order
RECURSIVE SyncAll(_, _)
SyncAll(f, ks) == IF ks = <<>> THEN f ELSE SyncAll(Queue(f, Head(ks), D("S", f.known[Head(ks)])), Tail(ks))
FResync(f) == IF ~f.hasKnown THEN {f}
              ELSE {SyncAll(f, p) : p \in Perms({k \in DOMAIN f.known : f.known[k] > 0} \ DOMAIN f.items)}

\* put deltas back unless newer ones are pending
FPutBack(f, k, ds) == LET g == Pop(f) IN
  IF Pending(f, k) THEN g
  ELSE [g EXCEPT !.items = Put(@, k, ds), !.queue = Append(@, k)]

CanPop(f) == f.busy = NB /\ f.queue # <<>>
FTake(f) == LET k == Head(f.queue) IN
  [f EXCEPT !.queue = Tail(@), !.busy = k, !.cur = f.items[k], !.items = Del(@, k)]
\* processing ended; how: "ok", "raise" (dropped), "requeue", "requeue+raise"
FEnd(f, how) ==
  LET g == [f EXCEPT !.busy = NB, !.cur = <<>>, !.init = IF @ > 0 THEN @ - 1 ELSE 0] IN
  IF how \in {"requeue", "requeue+raise"} THEN FPutBack(g, f.busy, f.cur) ELSE g

ApplyDeltas(m, k, ds) == LET d == Last(ds) IN IF d.t = "D" THEN Del(m, k) ELSE Put(m, k, d.o)

Synced(f) == f.populated /\ f.init = 0
\* the effect of a call, when it may have one now (a pop: its start)
Ok(g) == {[st |-> g, res |-> "ok"]}
OkS(S) == {[st |-> g, res |-> "ok"] : g \in S}
TDApply(f, c) ==
  IF f.busy # NB THEN {}
  ELSE CASE c.op = "add"     -> Ok(FAdd(f, "A", c.key, c.o))
         [] c.op = "update"  -> Ok(FAdd(f, "U", c.key, c.o))
         [] c.op = "delete"  -> Ok(FDelete(f, c.key, c.o))
         [] c.op = "deldfsu" -> Ok(LET g == FDelete(f, c.key, c.o) IN
                                   IF Pending(f, c.key) \/ MayKnow(f, c.key)
                                   THEN [Queue(Pop(f), c.key, Dfsu(c.o)) EXCEPT !.truth = Del(@, c.key)]
                                   ELSE g)
         [] c.op = "replace" -> OkS(FReplace(f, c.l))
         [] c.op = "resync"  -> OkS(FResync(f))
         [] c.op = "addif"   -> Ok(FPutBack(f, c.key, c.ds))
         [] c.op = "close"   -> Ok([f EXCEPT !.closed = TRUE])
         [] c.op = "pop"     -> IF CanPop(f)
                                THEN {[st |-> FTake(f), res |-> [key |-> Head(f.queue), ds |-> f.items[Head(f.queue)]]]}
                                ELSE IF f.closed THEN {[st |-> f, res |-> [key |-> "", ds |-> <<>>]]}
                                ELSE {}
         [] OTHER -> {}

----------------------------------------------------------------------------
(* Invariants *)
QueueKeys(f) == {f.queue[i] : i \in 1..Len(f.queue)}
FWellFormed(f) == /\ QueueKeys(f) = DOMAIN f.items
                  /\ Len(f.queue) = Cardinality(DOMAIN f.items)
                  /\ \A k \in DOMAIN f.items : f.items[k] # <<>>
NoTwoDeletes(f) == \A k \in DOMAIN f.items : \A i \in 1..Len(f.items[k]) - 1 :
                      ~(f.items[k][i].t = "D" /\ f.items[k][i+1].t = "D")
\* what the consumer will know once it has processed everything pending
AfterCur(f) == IF f.busy = NB THEN f.known ELSE ApplyDeltas(f.known, f.busy, f.cur)
View(f) == LET m == AfterCur(f)
               ks == DOMAIN m \cup DOMAIN f.items
               val(k) == IF Pending(f, k) THEN Last(f.items[k])
                         ELSE D("S", m[k])
           IN [k \in {x \in ks : val(x).t # "D"} |-> val(k).o]
\* C04: the consumer converges to exactly what the producer said
Converges(f) == View(f) = f.truth
=============================================================================
