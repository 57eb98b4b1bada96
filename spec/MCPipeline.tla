------------------------------ MODULE MCPipeline -----------------------------
(* The design of the pipeline (two handlers of an informer, predicates that  *)
(* stop at the first rejection, a queue keeping each object once, a worker    *)
(* that reads the store) watched by the monitor of Pipeline.tla.              *)
EXTENDS Pipeline
CONSTANTS Keys, MaxV, Preds
MCPreds == <<2, 3>>
VARIABLES store, rv, ref, src, q, dirty, wk, m, v
vars == <<store, rv, ref, src, q, dirty, wk, m, v>>
Init == /\ store = [k \in PKs |-> 0] /\ rv = 0 /\ ref = << >> /\ src = << >> /\ q = << >> /\ dirty = {} /\ wk = 0
        /\ m = PInit([preds |-> Preds]) /\ v = ""
E(k, t) == [k |-> k] @@ t
Note(op, k, old, new) == [op |-> op, key |-> k, old |-> old, new |-> new]
\* the informer applies a change (or a relist's replacement, old = new) and tells both handlers
Tell(n) == ref' = Append(ref, n) /\ src' = Append(src, n)
Put == /\ rv < MaxV /\ rv' = rv + 1
       /\ \E k \in Keys : /\ store' = [store EXCEPT ![k] = rv + 1]
                          /\ Tell(Note(IF store[k] = 0 THEN "create" ELSE "update", k, store[k], rv + 1))
       /\ UNCHANGED <<q, dirty, wk, m, v>>
Same == /\ rv < MaxV /\ rv' = rv + 1
        /\ \E k \in Keys : store[k] # 0 /\ Tell(Note("update", k, store[k], store[k]))
        /\ UNCHANGED <<store, q, dirty, wk, m, v>>
Del == /\ rv < MaxV /\ rv' = rv + 1
       /\ \E k \in Keys : store[k] # 0 /\ store' = [store EXCEPT ![k] = 0] /\ Tell(Note("delete", k, store[k], 0))
       /\ UNCHANGED <<q, dirty, wk, m, v>>
RefGets == /\ ref # << >> /\ ref' = Tail(ref) /\ m' = PStep(m, E("n", Head(ref)))
           /\ UNCHANGED <<store, rv, src, q, dirty, wk, v>>
\* predicates up to and including the first that rejects
RECURSIVE Ask(_, _, _)
Ask(s, n, i) == IF i > Len(Preds) THEN s
                ELSE LET s2 == PStep(s, E("pred", n @@ [i |-> i])) IN IF Accepts(Preds[i], n) THEN Ask(s2, n, i + 1) ELSE s2
SrcGets == /\ src # << >> /\ src' = Tail(src)
           /\ LET n == Head(src) IN
              /\ m' = Ask(m, n, 1)
              /\ IF AllAccept(Preds, n) /\ n.key \notin dirty
                 THEN dirty' = dirty \cup {n.key} /\ q' = (IF wk = n.key THEN q ELSE Append(q, n.key))
                 ELSE UNCHANGED <<q, dirty>>
           /\ UNCHANGED <<store, rv, ref, wk, v>>
Start == /\ wk = 0 /\ q # << >> /\ wk' = Head(q) /\ q' = Tail(q) /\ dirty' = dirty \ {wk'}
         /\ m' = PStep(PStep(m, E("rs", [key |-> wk'])), E("rr", [key |-> wk', v |-> store[wk'], r |-> "value"]))
         /\ UNCHANGED <<store, rv, ref, src, v>>
End == /\ wk # 0 /\ wk' = 0 /\ q' = (IF wk \in dirty THEN Append(q, wk) ELSE q) /\ m' = PStep(m, E("re", [key |-> wk]))
       /\ UNCHANGED <<store, rv, ref, src, dirty, v>>
Calm == /\ ref = << >> /\ src = << >> /\ q = << >> /\ wk = 0 /\ (m.N # << >> \/ m.R # << >>)
        /\ LET e == E("calm", [open |-> TRUE, ok |-> <<1>>, srv |-> <<store>>]) IN v' = PVerdict(m, e) /\ m' = PStep(m, e)
        /\ UNCHANGED <<store, rv, ref, src, q, dirty, wk>>
Nxt == Put \/ Same \/ Del \/ RefGets \/ SrcGets \/ Start \/ End \/ Calm
Spec == Init /\ [][Nxt]_vars /\ WF_vars(SrcGets) /\ WF_vars(Start) /\ WF_vars(End)
NoComplaint == v = ""
\* an accepted event is followed by a reconcile that starts after it
Reconciled == \A k \in Keys : (\E i \in 1..Len(src) : src[i].key = k /\ AllAccept(Preds, src[i])) ~> (wk = k)
=============================================================================
