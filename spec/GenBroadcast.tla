----------------------------- MODULE GenBroadcast ----------------------------
(* Scripts for the broadcaster. Watchers are numbered by the calls that     *)
(* asked for them.                                                          *)
EXTENDS Broadcast, GenLin
CONSTANTS Drop, Cap, MaxW, MaxInc

Buf(pre) == IF pre # <<>> THEN (IF Cap > Len(pre) + 1 THEN Cap ELSE Len(pre) + 1)
            ELSE IF Cap = 0 THEN (IF Drop THEN 100000 ELSE 0) ELSE Cap
BGInit == BInit(Drop)
Ev(n) == [k |-> "ev", n |-> n, id |-> 0, cap |-> 0, pre |-> <<>>]
BGApply(s, c) ==
  LET r(x) == {[st |-> x, res |-> ""]} IN
  CASE c.op = "act" -> r(Request(s, c.id, Ev(c.id)))
    [] c.op = "watch" -> r(Request(s, c.id, [k |-> "watch", n |-> 0, id |-> 0, cap |-> Buf(c.pre), pre |-> c.pre]))
    [] c.op = "shut" -> r(Request(s, c.id, [k |-> "shut", n |-> 0, id |-> 0, cap |-> 0, pre |-> <<>>]))
    [] c.op = "stop" -> r(StopW(s, c.w))
    [] c.op = "next" -> IF CanRead(s.w[c.w]) THEN r(ReadOne(s, c.w))
                        ELSE IF Ends(s.w[c.w]) THEN r(s) ELSE {}
    [] OTHER -> {}
BGInternal(s) == Steps([s EXCEPT !.ack = {}])
ShutAsked(s) == s.shut \/ \E i \in DOMAIN s.inc : s.inc[i].k = "shut"
Asked(s) == DOMAIN s.w \cup {s.inc[i].id : i \in {j \in DOMAIN s.inc : s.inc[j].k = "watch"}}
BGCalls(s, n) ==
  (IF ShutAsked(s) \/ Len(s.inc) >= MaxInc THEN {} ELSE
     {[op |-> "act", id |-> n], [op |-> "shut", id |-> n]}
     \cup (IF Cardinality(Asked(s)) < MaxW THEN {[op |-> "watch", id |-> n, pre |-> p] : p \in {<<>>, <<1000 + n>>}} ELSE {}))
  \cup {[op |-> o, w |-> i] : o \in {"stop", "next"}, i \in DOMAIN s.w}
BGWaits(c) == c.op = "next"
\* watchers by age
Age(s, i) == Cardinality({j \in DOMAIN s.w : j < i})
BGAbs(s) == <<[i \in {Age(s, j) : j \in DOMAIN s.w} |->
                 LET w == s.w[CHOOSE j \in DOMAIN s.w : Age(s, j) = i] IN <<Len(w.buf), w.cap, w.st, w.skip>>],
              [i \in 1..Len(s.inc) |-> s.inc[i].k], {Age(s, i) : i \in s.got \cap DOMAIN s.w}, s.shut>>
BGOp(c) == IF "w" \in DOMAIN c THEN <<c.op, c.w>> ELSE <<c.op>>
=============================================================================
