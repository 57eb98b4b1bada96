----------------------------- MODULE MCSupervise ------------------------------
(* Parts that return, raise or run on, some slow to stop; one cancellation.   *)
EXTENDS Supervise, TLC
CONSTANTS N
VARIABLES s, kind, ask, raised, asked
vars == <<s, kind, ask, raised, asked>>
Init == /\ s = SupInit(N) /\ kind \in [1..N -> {"runs", "returns", "raises"}]
        /\ ask = {} /\ raised = <<>> /\ asked = FALSE
Begin == s.ph = "new" /\ s' = [s EXCEPT !.ph = "running"] /\ UNCHANGED <<kind, ask, raised, asked>>
Start(i) == ~asked /\ MayStart(s, i) /\ s' = StartPart(s, i) /\ UNCHANGED <<kind, ask, raised, asked>>
Return(i) == kind[i] = "returns" /\ MayEndPart(s, i, "returned") /\ s' = EndPart(s, i, "returned") /\ UNCHANGED <<kind, ask, raised, asked>>
Raise(i) == kind[i] = "raises" /\ MayEndPart(s, i, "raised") /\ s' = EndPart(s, i, "raised") /\ raised' = Append(raised, i) /\ UNCHANGED <<kind, ask, asked>>
Cancel == s.ph = "running" /\ ~s.stopped /\ s' = [s EXCEPT !.stopped = TRUE] /\ UNCHANGED <<kind, ask, raised, asked>>
\* the manager asks the parts to stop; each takes its time
Ask == Stopping(s) /\ s.ph = "running" /\ (~asked \/ ask # Running(s)) /\ ask' = Running(s) /\ asked' = TRUE /\ UNCHANGED <<s, kind, raised>>
Cancelled(i) == i \in ask /\ MayEndPart(s, i, "cancelled") /\ s' = EndPart(s, i, "cancelled") /\ ask' = ask \ {i} /\ UNCHANGED <<kind, raised, asked>>
Finish(r) == MayEnd(s, r) /\ s' = End(s) /\ UNCHANGED <<kind, ask, raised, asked>>
Parts == 1..N
Next == Begin \/ Cancel \/ Ask \/ (\E i \in Parts : Start(i) \/ Return(i) \/ Raise(i) \/ Cancelled(i)) \/ (\E r \in 0..N : Finish(r))
Fair == /\ WF_vars(Ask) /\ \A i \in Parts : WF_vars(Cancelled(i))
        /\ WF_vars(\E r \in 0..N : Finish(r))
Spec == Init /\ [][Next]_vars /\ Fair
NothingLeft == s.ph = "ended" => Running(s) = {}
OnlyFailures == \A i \in s.failed : \E j \in 1..Len(raised) : raised[j] = i
Reported == s.ph = "ended" => s.stopped \/ s.failed # {}
\* a failure or a cancellation ends the manager; parts that return do not
Ends == (s.ph = "running" /\ Stopping(s)) ~> s.ph = "ended"
NoSpurious == [][s.ph = "running" /\ ~Stopping(s) => s'.ph = "running"]_vars
===============================================================================
