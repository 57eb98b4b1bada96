--------------------------- MODULE MCInformerStop ----------------------------
(* How a shared informer ends: cancellation reaches the list-and-watch task,  *)
(* the loop that processes the queue, and then, once both are over, the two    *)
(* tasks of each handler; handlers may be added at any moment.                 *)
(*  refl  off, list (a request), open (a watch), done   rs  the resync task    *)
(*  loop  off, idle, proc (telling handlers), done                             *)
(*  run   new, run, cancel (cancellation arrived), drain (waiting for the      *)
(*        handlers' tasks), over                                               *)
(*  lis   handler -> [pop, feed: its tasks run; st: idle, call, pause; n:      *)
(*        notifications waiting]                                               *)
(*  add   handler being added: "" none                                         *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Hs, MaxN
VARIABLES run, refl, rs, loop, lis, add, stopped, after
vars == <<run, refl, rs, loop, lis, add, stopped, after>>
None == 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
L0(on) == [pop |-> on, feed |-> on, st |-> "idle", n |-> 0]
Init == run = "new" /\ refl = "off" /\ rs = FALSE /\ loop = "off" /\ lis = << >> /\ add = None /\ stopped = FALSE /\ after = FALSE

Begin == /\ run = "new" /\ add = None /\ run' = "run" /\ refl' = "list" /\ loop' = "idle"
         /\ lis' = [h \in DOMAIN lis |-> L0(TRUE)] /\ UNCHANGED <<rs, add, stopped, after>>
Open == refl = "list" /\ refl' = "open" /\ rs' = TRUE /\ UNCHANGED <<run, loop, lis, add, stopped, after>>
Break == refl = "open" /\ run = "run" /\ refl' = "list" /\ rs' = FALSE /\ UNCHANGED <<run, loop, lis, add, stopped, after>>
Take == loop = "idle" /\ run = "run" /\ add = None /\ loop' = "proc" /\ UNCHANGED <<run, refl, rs, lis, add, stopped, after>>
Tell == /\ loop = "proc" /\ (\A h \in DOMAIN lis : lis[h].n < MaxN) /\ loop' = "idle"
        /\ lis' = [h \in DOMAIN lis |-> [lis[h] EXCEPT !.n = @ + 1]] /\ UNCHANGED <<run, refl, rs, add, stopped, after>>
\* adding takes the started lock, then waits for the loop to finish its item
AddBegin(h) == /\ h \notin DOMAIN lis /\ add = None /\ ~stopped /\ add' = h /\ UNCHANGED <<run, refl, rs, loop, lis, stopped, after>>
AddEnd == /\ add # None /\ loop # "proc"
          /\ lis' = Put(lis, add, [L0(run # "new") EXCEPT !.n = IF run = "new" THEN 0 ELSE 1])
          /\ add' = None /\ UNCHANGED <<run, refl, rs, loop, stopped, after>>
\* too late: ignored
AddLate(h) == /\ h \notin DOMAIN lis /\ stopped /\ add = None /\ UNCHANGED vars
Call(h) == /\ h \in DOMAIN lis /\ lis[h].feed /\ lis[h].pop /\ lis[h].st = "idle" /\ lis[h].n > 0
           /\ lis' = [lis EXCEPT ![h].st = "call", ![h].n = @ - 1] /\ after' = (after \/ run = "over")
           /\ UNCHANGED <<run, refl, rs, loop, add, stopped>>
Return(h) == /\ h \in DOMAIN lis /\ lis[h].st = "call"
             /\ \E r \in {"idle", "pause"} : lis' = [lis EXCEPT ![h].st = r]
             /\ UNCHANGED <<run, refl, rs, loop, add, stopped, after>>
Resume(h) == /\ h \in DOMAIN lis /\ lis[h].st = "pause" /\ lis[h].feed /\ lis' = [lis EXCEPT ![h].st = "idle"]
             /\ UNCHANGED <<run, refl, rs, loop, add, stopped, after>>
Cancel == run = "run" /\ run' = "cancel" /\ UNCHANGED <<refl, rs, loop, lis, add, stopped, after>>
\* what cancellation does, in any order
ReflEnds == run = "cancel" /\ refl # "done" /\ refl' = "done" /\ rs' = FALSE /\ UNCHANGED <<run, loop, lis, add, stopped, after>>
LoopEnds == run = "cancel" /\ loop # "done" /\ loop' = "done" /\ UNCHANGED <<run, refl, rs, lis, add, stopped, after>>
Stopped == /\ run = "cancel" /\ refl = "done" /\ loop = "done" /\ add = None
           /\ stopped' = TRUE /\ run' = "drain" /\ UNCHANGED <<refl, rs, loop, lis, add, after>>
PopEnds(h) == /\ run = "drain" /\ h \in DOMAIN lis /\ lis[h].pop /\ lis' = [lis EXCEPT ![h].pop = FALSE]
              /\ UNCHANGED <<run, refl, rs, loop, add, stopped, after>>
FeedEnds(h) == /\ run = "drain" /\ h \in DOMAIN lis /\ lis[h].feed /\ ~lis[h].pop /\ lis[h].st # "call"
               /\ lis' = [lis EXCEPT ![h].feed = FALSE] /\ UNCHANGED <<run, refl, rs, loop, add, stopped, after>>
Finish == /\ run = "drain" /\ \A h \in DOMAIN lis : ~lis[h].feed /\ ~lis[h].pop
          /\ run' = "over" /\ UNCHANGED <<refl, rs, loop, lis, add, stopped, after>>
Next == Begin \/ Open \/ Break \/ Take \/ Tell \/ AddEnd \/ Cancel \/ ReflEnds \/ LoopEnds \/ Stopped \/ Finish
        \/ \E h \in Hs : AddBegin(h) \/ AddLate(h) \/ Call(h) \/ Return(h) \/ Resume(h) \/ PopEnds(h) \/ FeedEnds(h)
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(AddEnd) /\ WF_vars(Tell) /\ WF_vars(ReflEnds) /\ WF_vars(LoopEnds) /\ WF_vars(Stopped) /\ WF_vars(Finish)
        /\ \A h \in Hs : WF_vars(Return(h)) /\ WF_vars(PopEnds(h)) /\ WF_vars(FeedEnds(h))
\* nothing is left and nothing happens after the end
Over == run = "over" => /\ refl = "done" /\ ~rs /\ loop = "done" /\ add = None
                        /\ \A h \in DOMAIN lis : ~lis[h].pop /\ ~lis[h].feed /\ lis[h].st # "call"
Silent == ~after
Ends == run = "cancel" ~> run = "over"
=============================================================================
