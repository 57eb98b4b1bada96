-------------------------------- MODULE Fifo --------------------------------
(***************************************************************************)
(* The FIFO queue: latest object per key.  A deletion leaves an empty place *)
(* in the line, which pop skips; a key added again goes to the end.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

FifoInit == [items |-> << >>, queue |-> <<>>, populated |-> FALSE, init |-> 0, closed |-> FALSE,
             owed |-> << >>]  \* owed: ghost, what must still be delivered
FPut(f, k, v) == (k :> v) @@ f
FDel(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

PAdd(f, k, o) == [f EXCEPT !.populated = TRUE,
                           !.queue = IF k \in DOMAIN f.items THEN @ ELSE Append(@, k),
                           !.items = FPut(@, k, o), !.owed = FPut(@, k, o)]
PAddIf(f, k, o) == IF k \in DOMAIN f.items THEN [f EXCEPT !.populated = TRUE] ELSE PAdd(f, k, o)
Nobody == "-deleted-"
PDelete(f, k) == [f EXCEPT !.populated = TRUE, !.items = FDel(@, k), !.owed = FDel(@, k),
                           !.queue = [i \in DOMAIN @ |-> IF @[i] = k THEN Nobody ELSE @[i]]]

Keys(l) == {l[i].key : i \in 1..Len(l)}
Latest(l, k) == l[CHOOSE i \in 1..Len(l) : l[i].key = k /\ \A j \in i+1..Len(l) : l[j].key # k].o
RECURSIVE Distinct(_, _)
Distinct(l, seen) == IF l = <<>> THEN <<>>
                     ELSE IF Head(l).key \in seen THEN Distinct(Tail(l), seen)
                     ELSE <<Head(l).key>> \o Distinct(Tail(l), seen \cup {Head(l).key})
PReplace(f, l) == LET m == [k \in Keys(l) |-> Latest(l, k)] IN
  [f EXCEPT !.items = m, !.owed = m, !.queue = Distinct(l, {}),
            !.init = IF f.populated /\ @ = 0 THEN @ ELSE Cardinality(Keys(l)),
            !.populated = TRUE]

\* skip places whose object is gone
RECURSIVE Skip(_)
Skip(f) == IF f.queue = <<>> \/ Head(f.queue) \in DOMAIN f.items THEN f
           ELSE Skip([f EXCEPT !.queue = Tail(@), !.init = IF @ > 0 THEN @ - 1 ELSE 0])
CanTake(f) == Skip(f).queue # <<>>
Front(f) == Head(Skip(f).queue)
PTake(f, how) ==
  LET g == Skip(f)
      k == Head(g.queue)
      o == g.items[k]
      h == [g EXCEPT !.queue = Tail(@), !.items = FDel(@, k), !.owed = FDel(@, k),
                     !.init = IF @ > 0 THEN @ - 1 ELSE 0]
  IN IF how \in {"requeue", "requeue+raise"} THEN PAddIf(h, k, o) ELSE h
PSynced(f) == f.populated /\ f.init = 0

\* the effect of a call, when it may have one now
FOk(g) == {[st |-> g, res |-> "ok"]}
PopRes(how, o) == [d |-> o, r |-> IF how \in {"raise", "requeue+raise"} THEN "ProcessError" ELSE "ok"]
TFApply(f, c) ==
  CASE c.op \in {"add", "update"} -> FOk(PAdd(f, c.key, c.o))
    [] c.op = "addif"   -> FOk(PAddIf(f, c.key, c.o))
    [] c.op = "delete"  -> FOk(PDelete(f, c.key))
    [] c.op = "replace" -> FOk(PReplace(f, c.l))
    [] c.op = "bad"     -> {[st |-> f, res |-> "EXC:StoreKeyError"]}
    [] c.op = "resync"  -> FOk(f)
    [] c.op = "close"   -> FOk([f EXCEPT !.closed = TRUE])
    [] c.op = "pop"     -> IF CanTake(f)
                           THEN {[st |-> PTake(f, c.how), res |-> PopRes(c.how, Skip(f).items[Front(f)])]}
                           ELSE IF f.closed THEN {[st |-> Skip(f), res |-> [d |-> 0, r |-> "Closed"]]}
                           ELSE {}
    [] OTHER -> {}
\* a pop that only skips deleted places keeps waiting
TFInternal(f) == IF f.queue # <<>> /\ ~CanTake(f) THEN {Skip(f)} ELSE {}

Places(f) == {f.queue[i] : i \in 1..Len(f.queue)}
\* every pending object has exactly one place
Held(f) == /\ DOMAIN f.items = Places(f) \ {Nobody}
           /\ \A i, j \in 1..Len(f.queue) : f.queue[i] = f.queue[j] /\ i # j => f.queue[i] = Nobody
OwedExact(f) == f.owed = f.items
=============================================================================
