------------------------------ MODULE MCIndexer ------------------------------
(* Objects with several, repeated or no values in two indexes; one index is *)
(* registered late (while the store is empty).                              *)
EXTENDS Indexer
CONSTANTS KeySet, Vals
VARIABLES s, ver
vars == <<s, ver>>
Seqs == {<<>>} \cup {<<v>> : v \in Vals} \cup {<<v, w>> : v \in Vals, w \in Vals}
IV == [{"i", "j"} -> Seqs]
IVs == {iv \in IV : iv["j"] = <<>> \/ Len(iv["j"]) = 1}
Init == s = IxInit({"i"}) /\ ver = 0
Add(k, iv) == s' = XAdd(s, k, 1, iv) /\ UNCHANGED ver
Delete(k) == s' = XDelete(s, k) /\ UNCHANGED ver
Replace(iv, S) == s' = XReplace(s, [i \in 1..Cardinality(S) |-> [key |-> CHOOSE k \in S : Cardinality({j \in S : j < k}) = i - 1, o |-> 1, iv |-> iv]]) /\ UNCHANGED ver
Register == CanAddIndexers(s, {"j"}) /\ s' = XAddIndexers(s, {"j"}) /\ UNCHANGED ver
Next == \/ \E k \in KeySet, iv \in IVs : Add(k, iv)
        \/ \E k \in KeySet : Delete(k)
        \/ \E iv \in IVs, S \in SUBSET KeySet : Replace(iv, S)
        \/ Register
Spec == Init /\ [][Next]_vars
Exact == IndexExact(s)
NoEmptySets == \A n \in s.names : \A v \in DOMAIN s.ix[n] : s.ix[n][v] # {}
=============================================================================
