----------------------------- MODULE MCDeltaFifo -----------------------------
(* A producer (reflector) that may miss events and then relists, resyncs at *)
(* any time, and a consumer that applies each popped item to its store.     *)
EXTENDS DeltaFifo
CONSTANTS Keys, MaxV, MaxLen, HasKnown
VARIABLES f, ver, first
vars == <<f, ver, first>>

\* first: ghost for C05: keys of the first list (and its deletions) not yet consumed
None == {"none"}
Init == f = DF0(HasKnown) /\ ver = 0 /\ first = None

Free == f.busy = NB
Bound == ver < MaxV
Mut(g) == f' = g /\ ver' = ver + 1
Small == \A k \in DOMAIN f.items : Len(f.items[k]) < MaxLen

Add(k) == Free /\ Bound /\ Small /\ Mut(FAdd(f, "A", k, ver + 1)) /\ UNCHANGED first
Update(k) == Free /\ Bound /\ Small /\ Mut(FAdd(f, "U", k, ver + 1)) /\ UNCHANGED first
Delete(k) == Free /\ Bound /\ Small /\ Mut(FDelete(f, k, ver + 1)) /\ UNCHANGED first
\* a list at the server's current state: each key absent, or at its current
\* version, or changed meanwhile
Lists == UNION {{[i \in 1..Cardinality(S) |-> [key |-> p[i], o |-> ver + 1]] : p \in {CHOOSE p \in Perms(S) : TRUE}} : S \in SUBSET Keys}
Replace(l) == /\ Free /\ Bound /\ Small
              /\ \E g \in FReplace(f, l) :
                   /\ Mut(g)
                   /\ first' = IF ~f.populated THEN DOMAIN g.items ELSE first
Resync == Free /\ Small /\ (\E g \in FResync(f) : f' = g) /\ UNCHANGED <<ver, first>>
PopStart == CanPop(f) /\ f' = FTake(f) /\ UNCHANGED <<ver, first>>
PopEnd == /\ ~Free
          /\ f' = [FEnd(f, "ok") EXCEPT !.known = IF f.hasKnown THEN ApplyDeltas(f.known, f.busy, f.cur) ELSE @]
          /\ first' = IF first = None THEN first ELSE first \ {f.busy}
          /\ UNCHANGED ver
Requeue == /\ ~Free /\ f' = FEnd(f, "requeue") /\ first = None /\ UNCHANGED <<ver, first>>

Next == \/ \E k \in Keys : Add(k) \/ Update(k) \/ Delete(k)
        \/ \E l \in Lists : Replace(l)
        \/ Resync \/ PopStart \/ PopEnd \/ Requeue
Spec == Init /\ [][Next]_vars /\ WF_vars(PopStart) /\ WF_vars(PopEnd)

Inv == FWellFormed(f) /\ NoTwoDeletes(f)
Conv == HasKnown => Converges(f)
\* C05: synced exactly when the first list is consumed, or no list came first
SyncTruth == /\ (first # None) => (Synced(f) <=> first = {})
             /\ (first = None) => (Synced(f) <=> f.populated)
NeverUnsynced == [][Synced(f) => Synced(f')]_vars
\* a resync never changes what the consumer will end up knowing
ResyncSafe == [][Resync => View(f') = View(f)]_vars
=============================================================================
