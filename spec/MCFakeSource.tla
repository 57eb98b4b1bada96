----------------------------- MODULE MCFakeSource -----------------------------
(* Lists and watches of the fake source, taken at any moment. got: what a    *)
(* watch has been told; from: where it started; missed: changes made without *)
(* telling open watches.                                                     *)
EXTENDS FakeSource, TLC
CONSTANTS KeySet, MaxChg, MaxW, Types
VARIABLES s, from, got, missed, seen
vars == <<s, from, got, missed, seen>>
Init == s = FSInit /\ from = <<>> /\ got = <<>> /\ missed = <<>> /\ seen = {}
Change(t, k, live) ==
  /\ ~s.shut /\ FSVersion(s) < MaxChg
  /\ s' = FSChange(s, t, k, FSVersion(s) + 1, live)
  /\ missed' = [w \in DOMAIN missed |-> IF live THEN missed[w] ELSE missed[w] \cup {FSVersion(s) + 1}]
  /\ UNCHANGED <<from, got, seen>>
\* where a list was taken and what it showed
List == /\ ~s.shut /\ seen = {}
        /\ seen' = {[rv |-> FSVersion(s), items |-> s.items]}
        /\ UNCHANGED <<s, from, got, missed>>
Watch(rv) == LET id == Cardinality(DOMAIN s.w) + 1 IN
  /\ ~s.shut /\ id <= MaxW /\ FSCanWatch(s, rv)
  /\ s' = FSWatch(s, id, rv)
  /\ from' = FSIns(from, id, rv) /\ got' = FSIns(got, id, <<>>) /\ missed' = FSIns(missed, id, {})
  /\ UNCHANGED seen
Read(i) == /\ s.w[i].buf # <<>>
           /\ got' = [got EXCEPT ![i] = Append(@, Head(s.w[i].buf))]
           /\ s' = FSRead(s, i) /\ UNCHANGED <<from, missed, seen>>
Stop(i) == s.w[i].st = "live" /\ s' = FSStop(s, i) /\ UNCHANGED <<from, got, missed, seen>>
Shutdown == ~s.shut /\ s' = FSShutdown(s) /\ UNCHANGED <<from, got, missed, seen>>
Next == \/ \E t \in Types, k \in KeySet, live \in BOOLEAN : Change(t, k, live)
        \/ List \/ Shutdown
        \/ \E rv \in 0..MaxChg : Watch(rv)
        \/ \E i \in DOMAIN s.w : Read(i) \/ Stop(i)
Spec == Init /\ [][Next]_vars
\* a watch is told the history from its version on, in order, complete but
\* for the changes that were made silently while it was open
Hist(w) == LET told == {v \in from[w] + 1..FSVersion(s) : v \notin missed[w]}
           IN [i \in 1..Cardinality(told) |-> CHOOSE v \in told : Cardinality({u \in told : u < v}) = i - 1]
Told == \A w \in DOMAIN from : s.w[w].st # "stopped" => got[w] \o s.w[w].buf = Hist(w)
\* what a list shows and the changes after its version add up to what there is
RECURSIVE After(_, _)
After(m, v) == IF v > FSVersion(s) THEN m
               ELSE LET c == s.chg[v] IN
                    After(IF c.t = "DELETED" THEN FSRem(m, c.key) ELSE FSIns(m, c.key, [n |-> c.n, rv |-> v]), v + 1)
ListAndWatch == \A l \in seen : After(l.items, l.rv + 1) = s.items
=============================================================================
