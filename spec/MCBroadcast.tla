----------------------------- MODULE MCBroadcast -----------------------------
(* Every schedule of a few senders, watchers, readers and a shutdown.       *)
EXTENDS Broadcast, TLC
CONSTANTS NEv, WIds, Caps, Pre
PreV == {<< >>, <<71>>}
VARIABLES s, sent, order, from, read, dropped
vars == <<s, sent, order, from, read, dropped>>
\* order: events in the order accepted; from[i]: how many came before watcher i; read[i]: what i has read
Init == /\ \E d \in BOOLEAN : s = BInit(d)
        /\ sent = 0 /\ order = << >> /\ from = << >> /\ read = << >> /\ dropped = {}
ShutAsked == \E i \in DOMAIN s.req : s.req[i].k = "shut"
ShutQueued == s.shut \/ \E i \in DOMAIN s.inc : s.inc[i].k = "shut"
NoShut == ~ShutAsked /\ ~ShutQueued
Send == sent < NEv /\ NoShut /\ sent' = sent + 1
        /\ s' = Request(s, 100 + sent, [k |-> "ev", n |-> sent + 1, id |-> 0, cap |-> 0, pre |-> << >>])
        /\ UNCHANGED <<order, from, read, dropped>>
Known(i) == i \in DOMAIN s.w \/ i \in DOMAIN s.req \/ \E j \in DOMAIN s.inc : s.inc[j].id = i
Watch(i) == /\ ~Known(i) /\ NoShut /\ s.ack \cap {i} = {}
            /\ \E c \in Caps, p \in Pre :
                 s' = Request(s, i, [k |-> "watch", n |-> 0, id |-> 0,
                        cap |-> IF c = 0 /\ p = << >> THEN (IF s.drop THEN 1000 ELSE 0)
                                ELSE IF c > Len(p) + 1 \/ p = << >> THEN c ELSE Len(p) + 1, pre |-> p])
            /\ UNCHANGED <<sent, order, from, read, dropped>>
Shutdown == NoShut /\ s' = Request(s, 200, [k |-> "shut", n |-> 0, id |-> 0, cap |-> 0, pre |-> << >>])
            /\ UNCHANGED <<sent, order, from, read, dropped>>
Inside == \E x \in Steps(s) :
            /\ s' = x
            /\ LET acc == DOMAIN s.req \ DOMAIN x.req IN
               order' = IF \E i \in acc : s.req[i].k = "ev"
                        THEN Append(order, s.req[CHOOSE i \in acc : TRUE].n) ELSE order
            /\ LET new == DOMAIN x.w \ DOMAIN s.w IN
               /\ from' = IF new = {} THEN from
                          ELSE Ins(from, CHOOSE i \in new : TRUE,
                                   Len(order) - Cardinality({j \in DOMAIN x.inc : x.inc[j].k = "ev"}))
               /\ read' = IF new = {} THEN read
                          ELSE Ins(read, CHOOSE i \in new : TRUE, [pre |-> x.w[CHOOSE i \in new : TRUE].buf, got |-> << >>])
            /\ dropped' = dropped \cup {<<i, Head1(s).n>> : i \in
                  {j \in Live(s) : s.drop /\ HasHead(s) /\ Len(x.inc) < Len(s.inc) /\ Head1(s).k = "ev" /\ Full(s.w[j])}}
            /\ UNCHANGED sent
Read(i) == i \in DOMAIN s.w /\ CanRead(s.w[i]) /\ s' = ReadOne(s, i)
           /\ read' = [read EXCEPT ![i].got = Append(@, Head(s.w[i].buf))]
           /\ UNCHANGED <<sent, order, from, dropped>>
CancelRd(i) == i \in DOMAIN s.w /\ s.w[i].spare = 0 /\ s.w[i].cap > 0 /\ s' = CancelRead(s, i) /\ s' # s
               /\ UNCHANGED <<sent, order, from, read, dropped>>
Stop(i) == i \in DOMAIN s.w /\ s.w[i].st = "live" /\ s' = StopW(s, i)
           /\ UNCHANGED <<sent, order, from, read, dropped>>
Nxt == Send \/ Shutdown \/ Inside \/ \E i \in WIds : Watch(i) \/ Read(i) \/ Stop(i) \/ CancelRd(i)
Spec == Init /\ [][Nxt]_vars

Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
After(i) == SubSeq(order, from[i] + 1, Len(order))
Kept(i) == SelectSeq(After(i), LAMBDA n : <<i, n>> \notin dropped)
Has(i) == read[i].got \o s.w[i].buf
\* a watcher has its prefix, then the events accepted after it, in order, none missing
\* except those dropped while it was full
InOrder == \A i \in DOMAIN s.w : Prefix(Has(i), read[i].pre \o Kept(i))
NothingDroppedIfWaiting == ~s.drop => dropped = {}
\* once settled a live watcher has everything, unless someone does not read
Complete == Settled(s) /\ ~Blocked(s) /\ s.inc = << >> /\ ~s.shut =>
              \A i \in Live(s) : Has(i) = read[i].pre \o Kept(i)
\* whoever blocks the broadcaster is live and has unread events: stopping it is enough
OnlyLiveBlock == Blocked(s) => \E i \in Live(s) : s.w[i].buf # << >>
\* an unsettled broadcaster can always move on by itself
Progress == ~Settled(s) => Steps(s) # {}
=============================================================================
