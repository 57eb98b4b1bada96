---------------------------- MODULE MCController -----------------------------
(* The design of the controller (a queue that keeps a request being worked   *)
(* on apart, delayed requeues merged per request, workers that pause after   *)
(* an error) watched by the monitor of Controller.tla: whatever arrives and  *)
(* whatever reconciles return, the monitor never has cause to complain.      *)
EXTENDS Controller
CONSTANTS Keys, Workers, MaxT, MaxArrive, MaxOut
MCSec == 2
MCTol == 0
MCBackoff(n) == IF n >= 2 THEN 3 ELSE n + 1
VARIABLES q, dirty, proc, dly, wk, fails, now, arr, out, owed, m, v
vars == <<q, dirty, proc, dly, wk, fails, now, arr, out, owed, m, v>>
Init == /\ q = << >> /\ dirty = {} /\ proc = {} /\ dly = [k \in Keys |-> -1] /\ now = 0 /\ arr = 0 /\ out = 0 /\ owed = {}
        /\ wk = [i \in 1..Workers |-> [key |-> 0, til |-> 0]] /\ fails = [k \in Keys |-> 0]
        /\ m = [CInit0(Keys, Workers) EXCEPT !.started = TRUE] /\ v = ""
\* the work queue
AddQ(k) == IF k \in dirty THEN [q |-> q, d |-> dirty]
           ELSE [q |-> IF k \in proc THEN q ELSE Append(q, k), d |-> dirty \cup {k}]
Arrive(k) == /\ arr < MaxArrive /\ arr' = arr + 1 /\ q' = AddQ(k).q /\ dirty' = AddQ(k).d
             /\ m' = Arrived(Arriving(m, k), k) /\ UNCHANGED <<proc, dly, wk, fails, now, out, owed, v>>
Fire(k) == /\ dly[k] >= 0 /\ dly[k] <= now /\ dly' = [dly EXCEPT ![k] = -1] /\ q' = AddQ(k).q /\ dirty' = AddQ(k).d
           /\ UNCHANGED <<proc, wk, fails, now, arr, out, owed, m, v>>
CanBegin(i) == wk[i].key = 0 /\ wk[i].til <= now /\ q # << >>
Begin(i) == /\ CanBegin(i)
            /\ LET k == Head(q) IN
               /\ q' = Tail(q) /\ dirty' = dirty \ {k} /\ proc' = proc \cup {k}
               /\ wk' = [wk EXCEPT ![i].key = k]
               /\ v' = StartVerdict(m, k, now) /\ m' = Started(m, k, now)
            /\ UNCHANGED <<dly, fails, now, arr, out, owed>>
After(k, d) == [dly EXCEPT ![k] = IF @ < 0 \/ now + d < @ THEN now + d ELSE @]
Finish(i, r, d) ==
  /\ wk[i].key # 0 /\ (r # "ok" => out < MaxOut)
  /\ out' = IF r = "ok" THEN out ELSE out + 1
  /\ LET k == wk[i].key IN
     /\ dly' = CASE r = "after" -> After(k, d) [] r \in {"requeue", "raise"} -> After(k, MCBackoff(fails[k])) [] OTHER -> dly
     /\ fails' = [fails EXCEPT ![k] = IF r \in {"requeue", "raise"} THEN @ + 1 ELSE IF r = "junk" THEN @ ELSE 0]
     /\ proc' = proc \ {k} /\ q' = (IF k \in dirty THEN Append(q, k) ELSE q)
     /\ wk' = [wk EXCEPT ![i] = [key |-> 0, til |-> IF r \in {"raise", "junk"} THEN now + MCSec ELSE now]]
     /\ owed' = (IF r \in {"after", "requeue", "raise"} THEN owed \cup {k} ELSE owed \ {k})
     /\ m' = Ended(m, k, r, d, now)
  /\ UNCHANGED <<dirty, now, arr, v>>
Tick == /\ now < MaxT /\ ~(\E i \in 1..Workers : CanBegin(i)) /\ ~(\E k \in Keys : dly[k] >= 0 /\ dly[k] <= now)
        /\ v' = IdleVerdict(m, now) /\ now' = now + 1 /\ UNCHANGED <<q, dirty, proc, dly, wk, fails, arr, out, owed, m>>
FireAny == \E k \in Keys : Fire(k)
ArriveAny == \E k \in Keys : Arrive(k)
BeginAny == \E i \in 1..Workers : Begin(i)
FinishOk == \E i \in 1..Workers : Finish(i, "ok", 0)
FinishAfter == \E i \in 1..Workers, d \in 1..2 : Finish(i, "after", d)
FinishFail == \E i \in 1..Workers, r \in {"requeue", "raise"} : Finish(i, r, 0)
FinishJunk == \E i \in 1..Workers : Finish(i, "junk", 0)
FinishAny == FinishOk \/ FinishAfter \/ FinishFail \/ FinishJunk
Nxt == FireAny \/ ArriveAny \/ BeginAny \/ FinishOk \/ FinishAfter \/ FinishFail \/ FinishJunk \/ Tick
Spec == Init /\ [][Nxt]_vars /\ WF_vars(FireAny) /\ WF_vars(BeginAny) /\ WF_vars(FinishAny) /\ WF_vars(Tick)
NoComplaint == v = ""
OneAtATime == \A i, j \in 1..Workers : i # j /\ wk[i].key # 0 => wk[i].key # wk[j].key
\* a request that asked to come back is still on its way
RetryPending == \A k \in owed : dly[k] >= 0 \/ k \in dirty \/ k \in proc
NothingLost == \A k \in Keys : k \in dirty => k \in proc \/ \E i \in 1..Len(q) : q[i] = k
\* a request that waits is picked up unless every worker is busy or pausing
Served == \A k \in Keys : (k \in dirty /\ k \notin proc) ~> (k \in proc \/ now = MaxT)
=============================================================================
