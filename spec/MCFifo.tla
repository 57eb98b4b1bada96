------------------------------- MODULE MCFifo -------------------------------
EXTENDS Fifo
CONSTANTS KeySet, MaxV, MaxQ
VARIABLES f, ver, outs, first
vars == <<f, ver, outs, first>>
\* outs: ghost, per key the versions delivered; first: list keys not yet consumed
NoList == {"-none-"}
Init == f = FifoInit /\ ver = 0 /\ outs = [k \in KeySet |-> 0] /\ first = NoList
Small == Len(f.queue) < MaxQ
Orders(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}
Put == /\ ver < MaxV /\ Small /\ ver' = ver + 1 /\ UNCHANGED <<outs, first>>
       /\ \E k \in KeySet : f' = PAdd(f, k, ver') \/ f' = PAddIf(f, k, ver')
List == /\ ver < MaxV /\ ver' = ver + 1 /\ UNCHANGED outs
        /\ \E S \in SUBSET KeySet : \E p \in Orders(S) :
             LET l == [i \in 1..Cardinality(S) |-> [key |-> p[i], o |-> ver']]
             IN f' = PReplace(f, l) /\ first' = IF f.populated /\ f.init = 0 THEN first ELSE S
Delete == \E k \in KeySet : k \in DOMAIN f.items /\ f' = PDelete(f, k)
                            /\ first' = first \ {k} /\ UNCHANGED <<ver, outs>>
\* what is given back by a requeue is not owed to the first list again
Take == \E how \in {"ok", "requeue"} : CanTake(f) /\ f' = PTake(f, how)
        /\ outs' = [outs EXCEPT ![Front(f)] = Skip(f).items[Front(f)]]
        /\ first' = first \ {Front(f)}
        /\ UNCHANGED ver
SkipGone == f.queue # <<>> /\ ~CanTake(f) /\ f' = Skip(f) /\ UNCHANGED <<ver, outs, first>>
Next == Put \/ List \/ Delete \/ Take \/ SkipGone
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(SkipGone)
Inv == Held(f) /\ OwedExact(f)
\* what is delivered is never older than what was delivered before for the key
Fresh == [][\A k \in KeySet : outs'[k] >= outs[k]]_vars
\* keys come out in the order in which they became pending: nothing that
\* becomes pending goes in front of anything that is
Line == [][LET old == SelectSeq(f.queue, LAMBDA k : k # Nobody)
               new == SelectSeq(f'.queue, LAMBDA k : k # Nobody)
               stay == SelectSeq(old, LAMBDA k : k \in Places(f'))
           IN \/ List
              \/ SubSeq(new, 1, Len(stay)) = stay
              \/ (Len(old) > 0 /\ SubSeq(new, 1, Len(old) - 1) = Tail(old))]_vars
SyncedLate == PSynced(f) => first \in {{}, NoList} \/ \A k \in first : k \notin DOMAIN f.items
SyncUp == f.populated /\ first = NoList => PSynced(f)
SyncedOnce == f.queue = <<>> /\ f.populated => PSynced(f)
NeverUnsynced == [][PSynced(f) => PSynced(f')]_vars
=============================================================================
