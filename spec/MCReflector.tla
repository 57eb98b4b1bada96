----------------------------- MODULE MCReflector -----------------------------
(* A server with a history of changes, a reflector that obeys Reflector, a  *)
(* store, and bounded faults: the store always holds the server's state at  *)
(* one version, never goes back between lists, and catches up in the end.   *)
EXTENDS Reflector, TLC
CONSTANTS Keys, MaxEv, MaxFaults
VARIABLES r, hist, sent, store, faults, base
vars == <<r, hist, sent, store, faults, base>>
\* hist: sequence of [k, del]; version i is the i-th change; sent: last version put on the open stream
RECURSIVE At(_)
At(v) == IF v = 0 THEN [k \in Keys |-> 0]
         ELSE [At(v - 1) EXCEPT ![hist[v].k] = IF hist[v].del THEN 0 ELSE v]
Init == r = RInit /\ hist = << >> /\ sent = 0 /\ store = [k \in Keys |-> 0] /\ faults = 0 /\ base = 0
Change == /\ Len(hist) < MaxEv
          /\ \E k \in Keys, d \in BOOLEAN : (d => At(Len(hist))[k] > 0)
               /\ hist' = Append(hist, [k |-> k, del |-> d])
          /\ UNCHANGED <<r, sent, store, faults, base>>
Fault == faults < MaxFaults /\ faults' = faults + 1
CallList == CanList(r) /\ r.ph = "relist" /\ r' = List(r) /\ UNCHANGED <<hist, sent, store, faults, base>>
CallList2 == CanList(r) /\ r.ph # "relist" /\ r' = List(r) /\ UNCHANGED <<hist, sent, store, faults, base>>
ListOk == r.ph = "listing" /\ r' = Listed(r, Len(hist), At(Len(hist))) /\ UNCHANGED <<hist, sent, store, faults, base>>
ListFail == r.ph = "listing" /\ Fault /\ r' = Relist(r, 0) /\ UNCHANGED <<hist, sent, store, base>>
Replace == /\ CanReplace(r, r.lst.rv, r.lst.ids)
           /\ store' = r.lst.ids /\ base' = r.lst.rv
           /\ r' = Replaced(r, TRUE, 0) /\ UNCHANGED <<hist, sent, faults>>
ReplaceFail == r.ph = "replace" /\ Fault /\ r' = Replaced(r, FALSE, 0) /\ UNCHANGED <<hist, sent, store, base>>
CallWatch == \E v \in r.rvs : CanWatch(r, v) /\ r' = Watch(r, v) /\ sent' = v /\ UNCHANGED <<hist, store, faults, base>>
WatchOk == r.ph = "opening" /\ r' = Opened(r, 0) /\ UNCHANGED <<hist, sent, store, faults, base>>
WatchFail == r.ph = "opening" /\ Fault /\ r' = Relist(r, 0) /\ UNCHANGED <<hist, sent, store, base>>
Stream == /\ r.ph = "watch" /\ r.end = "" /\ sent < Len(hist) /\ sent' = sent + 1
          /\ r' = Settle(Arrive(r, IF hist[sent'].del THEN "delete" ELSE "update", hist[sent'].k, sent', TRUE), 0)
          /\ UNCHANGED <<hist, store, faults, base>>
Mark == /\ r.ph = "watch" /\ r.end = "" /\ Len(r.q) < 2 /\ r.n < 2 /\ Fault
        /\ r' = Settle(Bookmark(r, sent), 0) /\ UNCHANGED <<hist, sent, store, base>>
End == /\ r.ph = "watch" /\ r.end = "" /\ Fault
       /\ \E how \in {"clean", "bad"}, t \in {0, 5000} : r' = Settle([r EXCEPT !.end = how], t)
       /\ UNCHANGED <<hist, sent, store, base>>
ResyncFail == /\ r.ph \in {"watch", "opening", "open"} /\ r.rsf < 0 /\ Fault /\ r' = [r EXCEPT !.rsf = 0]
              /\ UNCHANGED <<hist, sent, store, base>>
Op == /\ r.ph = "watch" /\ r.q # << >> /\ CanOp(r, r.q[1].op, r.q[1].id)
      /\ LET e == r.q[1] IN store' = [store EXCEPT ![e.id] = IF e.op = "delete" THEN 0 ELSE e.rv]
      /\ r' = Settle(OpDone([r EXCEPT !.busy = r.q[1].op]), 0)
      /\ UNCHANGED <<hist, sent, faults, base>>
Work == CallList \/ CallList2 \/ ListOk \/ Replace \/ CallWatch \/ WatchOk \/ Stream \/ Op
Nxt == Change \/ CallList \/ CallList2 \/ ListOk \/ ListFail \/ Replace \/ ReplaceFail \/ CallWatch \/ WatchOk \/ WatchFail
       \/ Stream \/ Mark \/ End \/ ResyncFail \/ Op
Spec == Init /\ [][Nxt]_vars /\ WF_vars(CallList) /\ WF_vars(ListOk) /\ WF_vars(Replace) /\ WF_vars(CallWatch)
        /\ WF_vars(WatchOk) /\ WF_vars(Stream) /\ WF_vars(Op) /\ WF_vars(CallList2)

\* the store is the server's state at the version reached
StoreIsSnapshot == r.ph \in {"open", "opening", "watch", "either"} /\ r.q = << >> /\ Cardinality(r.last) = 1 =>
                     \E v \in r.last : store = At(v)
NeverBack == [][\A k \in Keys : store'[k] >= store[k] \/ store'[k] = 0]_vars
ResumesRight == r.ph \in {"opening", "watch"} => sent >= (CHOOSE v \in r.rvs : \A w \in r.rvs : v <= w)
CatchesUp == <>[](store = At(Len(hist)))
=============================================================================
