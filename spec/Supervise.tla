------------------------------ MODULE Supervise -------------------------------
(***************************************************************************)
(* The parts of a manager and how they end (C22): parts are started once   *)
(* the cache has synced; one that returns stops nothing; the first one     *)
(* that raises, or a cancellation from outside, stops the others; start    *)
(* ends when every part has ended, with the failure or with cancellation.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
(* failed: the parts that raised by themselves before a cancellation (more   *)
(* than one when they do so before the manager has reacted)                 *)
SupInit(n) == [ph |-> "new", part |-> [i \in 1..n |-> "idle"], failed |-> {}, stopped |-> FALSE]
Running(s) == {i \in DOMAIN s.part : s.part[i] = "run"}
Stopping(s) == s.failed # {} \/ s.stopped

\* a part may still start in the moment in which another one fails
MayStart(s, i) == s.ph = "running" /\ s.part[i] = "idle"
StartPart(s, i) == [s EXCEPT !.part[i] = "run"]
\* how: returned, raised, cancelled
MayEndPart(s, i, how) == s.part[i] = "run" /\ (how = "cancelled" => Stopping(s))
EndPart(s, i, how) == [s EXCEPT !.part[i] = "ended", !.failed = IF how = "raised" /\ ~s.stopped THEN @ \cup {i} ELSE @]
\* r: 0 cancelled, i the failure of part i
MayEnd(s, r) == /\ s.ph = "running" /\ Running(s) = {} /\ Stopping(s)
                /\ IF s.failed # {} THEN r \in s.failed \/ (r = 0 /\ s.stopped) ELSE r = 0
End(s) == [s EXCEPT !.ph = "ended"]
\* nothing is left to run now
Settled(s) == s.ph = "running" /\ Stopping(s) => Running(s) # {}
===============================================================================
