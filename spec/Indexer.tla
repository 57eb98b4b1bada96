------------------------------- MODULE Indexer -------------------------------
(***************************************************************************)
(* The indexed store.  items: key -> [o, iv], where iv[n] is the sequence  *)
(* of values index n's function gives for the object.  names: registered   *)
(* indexes.  ix is the maintained index (name -> value -> set of keys);    *)
(* lookups are defined from the objects alone, IndexExact says the         *)
(* incrementally maintained index always agrees with that definition.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

IxInit(names) == [items |-> << >>, names |-> names, ix |-> [n \in names |-> << >>]]
SetOf(s) == {s[i] : i \in 1..Len(s)}
XDel(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* --- definition of the lookups -------------------------------------------
KeysBy(s, n, v) == {k \in DOMAIN s.items : v \in SetOf(s.items[k].iv[n])}
ObjsBy(s, n, v) == {s.items[k].o : k \in KeysBy(s, n, v)}
\* objects sharing at least one value with the sample
ObjsLike(s, n, vs) == {s.items[k].o : k \in {x \in DOMAIN s.items : SetOf(s.items[x].iv[n]) \cap vs # {}}}
Values(s, n) == UNION {SetOf(s.items[k].iv[n]) : k \in DOMAIN s.items}

\* --- incremental maintenance ---------------------------------------------
RECURSIVE AddVals(_, _, _), RemVals(_, _, _)
AddVals(m, k, vs) == IF vs = <<>> THEN m ELSE
  LET v == Head(vs) IN
  AddVals(IF v \in DOMAIN m THEN [m EXCEPT ![v] = @ \cup {k}] ELSE (v :> {k}) @@ m, k, Tail(vs))
RemVals(m, k, vs) == IF vs = <<>> THEN m ELSE
  LET v == Head(vs)
      n == IF v \in DOMAIN m
           THEN IF m[v] \ {k} = {} THEN XDel(m, v) ELSE [m EXCEPT ![v] = @ \ {k}]
           ELSE m
  IN RemVals(n, k, Tail(vs))

XDelete(s, k) == IF k \notin DOMAIN s.items THEN s ELSE
  [s EXCEPT !.ix = [n \in s.names |-> RemVals(s.ix[n], k, s.items[k].iv[n])],
            !.items = XDel(@, k)]
XAdd(s, k, o, iv) == LET d == XDelete(s, k) IN
  [d EXCEPT !.ix = [n \in s.names |-> AddVals(d.ix[n], k, iv[n])],
            !.items = (k :> [o |-> o, iv |-> iv]) @@ @]
RECURSIVE AddAll(_, _)
AddAll(s, l) == IF l = <<>> THEN s
                ELSE AddAll(XAdd(s, Head(l).key, Head(l).o, Head(l).iv), Tail(l))
XReplace(s, l) == AddAll(IxInit(s.names), l)
\* the index functions raise for some objects (value 0): such an object is refused
Bad(s, iv) == \E n \in s.names : 0 \in SetOf(iv[n])
BadIn(s, l) == \E i \in 1..Len(l) : Bad(s, l[i].iv)
\* of several objects with one key only the last counts, the others need not be looked at
MustRefuse(s, l) == \E i \in 1..Len(l) : Bad(s, l[i].iv) /\ \A j \in (i + 1)..Len(l) : l[j].key # l[i].key
CanAddIndexers(s, new) == s.items = << >> /\ s.names \cap new = {}
XAddIndexers(s, new) == IxInit(s.names \cup new)

\* the effect of a call
XOk(g) == {[st |-> g, res |-> <<>>]}
R(s, x) == {[st |-> s, res |-> x]}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
KeyErr == <<-404>>
Err == <<-500>>
TXApply(s, c) ==
  CASE c.op \in {"add", "update"} -> IF Bad(s, c.iv) THEN R(s, Err) ELSE XOk(XAdd(s, c.key, c.o, c.iv))
    [] c.op = "delete" -> XOk(XDelete(s, c.key))
    [] c.op = "replace" -> (IF BadIn(s, c.l) THEN R(s, Err) ELSE {}) \cup
                            (IF MustRefuse(s, c.l) THEN {} ELSE XOk(XReplace(s, c.l)))
    [] c.op = "bad" -> R(s, KeyErr)
    [] c.op = "resync" -> XOk(s)
    [] c.op = "by_index" -> R(s, IF c.n \in s.names THEN Sorted(ObjsBy(s, c.n, c.v)) ELSE KeyErr)
    [] c.op = "index_keys" -> R(s, IF c.n \in s.names THEN Sorted(KeysBy(s, c.n, c.v)) ELSE KeyErr)
    [] c.op = "index" -> R(s, IF c.n \notin s.names THEN KeyErr ELSE IF 0 \in SetOf(c.iv[c.n]) THEN Err
                               ELSE Sorted(ObjsLike(s, c.n, SetOf(c.iv[c.n]))))
    [] c.op = "values" -> R(s, IF c.n \in s.names THEN Sorted(Values(s, c.n)) ELSE <<>>)
    [] c.op = "add_indexers" -> IF CanAddIndexers(s, SetOf(c.names))
                                THEN XOk(XAddIndexers(s, SetOf(c.names)))
                                ELSE R(s, Err)
    [] OTHER -> {}

IndexExact(s) == \A n \in s.names :
   /\ DOMAIN s.ix[n] = Values(s, n)
   /\ \A v \in DOMAIN s.ix[n] : s.ix[n][v] = KeysBy(s, n, v)
=============================================================================
