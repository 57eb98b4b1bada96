--------------------------- MODULE DeltaFifoTrace ---------------------------
(* A pop is recorded as a call that returns the deltas when the process     *)
(* callback starts; "pend" marks the end of the callback, "popped" what     *)
(* pop() itself then returned.                                              *)
EXTENDS DeltaFifo, LinTrace

TDInit(cfg) == [DF0(cfg.known) EXCEPT !.known = ListTruth(cfg.pre), !.truth = ListTruth(cfg.pre)] @@ [out |-> << >>, follow |-> cfg.follow, gated |-> cfg.gated, chk |-> cfg.chk]

\* reads: pending keys, newest objects, deltas per key, sync status
TDProbe(f, e) ==
  /\ {e.keys[i] : i \in 1..Len(e.keys)} = DOMAIN f.items
  /\ Len(e.keys) = Cardinality(DOMAIN f.items)
  /\ \A i \in 1..Len(e.got) : e.got[i].ds = (IF Pending(f, e.got[i].key) THEN f.items[e.got[i].key] ELSE <<>>)
  /\ {e.newest[i] : i \in 1..Len(e.newest)} = {[f |-> Last(f.items[k]).f, o |-> Last(f.items[k]).o] : k \in DOMAIN f.items}
  /\ f.chk = "all" => e.synced = Synced(f)
  /\ e.closed = f.closed

\* what pop() gives back for each way its callback can end
PopOut(how) == IF how \in {"raise", "requeue+raise"} THEN "ProcessError"
               ELSE IF how = "cancel" THEN "Cancelled" ELSE "ok"
TDEnv(f, e) ==
  CASE e.what = "known"  -> {[f EXCEPT !.known = IF e.o = 0 THEN Del(@, e.key) ELSE Put(@, e.key, e.o)]}
    [] e.what = "pend"   -> IF f.busy = NB THEN {}
                            ELSE {[FEnd(f, e.how) EXCEPT !.out = Put(@, e.id, [r |-> PopOut(e.how), ds |-> f.cur])]}
    [] e.what = "popped" -> IF e.id \in DOMAIN f.out /\ f.out[e.id] = [r |-> e.r, ds |-> e.ds]
                            THEN {[f EXCEPT !.out = Del(@, e.id)]} ELSE {}
    [] e.what = "truth"  -> {[f EXCEPT !.truth = f.known]}
    [] OTHER -> {}
TDInternal(f) == {}
TDCancel(f, c) == IF c.op = "pop" THEN {} ELSE {o.st : o \in TDApply(f, c)}
TDDue(f) == {}
TDSetNow(f, t) == f
TDQuiet(f) == (f.busy = NB \/ f.gated) /\ f.out = << >>

TraceInv == /\ FWellFormed(ms) /\ NoTwoDeletes(ms)
            /\ ms.follow => Converges(ms)
=============================================================================
