-------------------------------- MODULE MCWait -------------------------------
(* All behaviours of a helper that obeys Wait, for every configuration in   *)
(* Cfgs: what the user relies on follows.                                   *)
EXTENDS Wait, TLC
CONSTANT MaxT
VARIABLES s, t, ran, ins
vars == <<s, t, ran, ins>>
Base == [mode |-> "backoff", steps |-> 0, dur |-> 2, fn |-> 0, fd |-> 1, jn |-> 0, jd |-> 1, cap |-> 0,
         imm |-> FALSE, timeout |-> -1, sliding |-> FALSE, stoppable |-> FALSE]
Cfgs == {[Base EXCEPT !.steps = n, !.fn = f, !.jn = j, !.cap = c, !.dur = 1] :
             n \in 0..3, f \in {0, 2}, j \in {0, 1}, c \in {0, 3}}
        \cup {[Base EXCEPT !.mode = "poll", !.imm = i, !.timeout = d] : i \in BOOLEAN, d \in {-1, 0, 3, 4}}
        \cup {[Base EXCEPT !.mode = "loop", !.sliding = sl, !.stoppable = st, !.jn = j] :
                 sl \in BOOLEAN, st \in BOOLEAN, j \in {0, 1}}
Init == /\ \E c \in Cfgs : s = WInit(c, 0)
        /\ t = 0 /\ ran = 0 /\ ins = << >>
Start == ran < 5 /\ MayStart(s, t) /\ s' = Started(s, t) /\ ran' = ran + 1 /\ ins' = Append(ins, t) /\ UNCHANGED t
Results(m) == IF m = "loop" THEN {"none", "raise", "cancelled"} ELSE {"true", "false", "raise", "cancelled"}
Finish == \E r \in Results(s.c.mode) : MayFinish(s, t, r) /\ s' = Finished(s, t, r) /\ UNCHANGED <<t, ran, ins>>
End == \E r \in {"ok", "timeout", "raise", "cancelled", "none"} :
          MayEnd(s, t, r) /\ s' = Ended(s) /\ UNCHANGED <<t, ran, ins>>
Stop == s.phase # "done" /\ s.c.stoppable /\ s.stop < 0 /\ s' = Stopped(s, t) /\ UNCHANGED <<t, ran, ins>>
Cancel == s.phase # "done" /\ ~s.cancelled /\ s' = Cancelled(s, t) /\ UNCHANGED <<t, ran, ins>>
\* time passes while an attempt runs, or up to the moment something is due
Tick == /\ t < MaxT /\ s.phase # "done" /\ ~Overdue(s, t + 1)
        /\ ~(s.phase = "wait" /\ s.stop >= 0)
        /\ t' = t + 1 /\ UNCHANGED <<s, ran, ins>>
Nxt == Start \/ Finish \/ End \/ Stop \/ Cancel \/ Tick
Spec == Init /\ [][Nxt]_vars

AttemptsBounded == s.c.mode = "backoff" => ran <= s.c.steps
NoRunAfterStop == [][(s.stop >= 0) => ran' = ran]_vars
NoRunAfterEnd == [][(s.phase = "done") => s' = s]_vars
Spacing == \A i \in 1..(Len(ins) - 1) : ins[i + 1] - ins[i] >= s.c.dur
PollDeadline == s.c.mode = "poll" /\ s.dl >= 0 /\ s.phase = "wait" => t <= s.dl
\* it can always go on or end: nobody is stuck before MaxT
NotStuck == s.phase = "done" \/ t = MaxT \/ ran = 5 \/ ENABLED Nxt
=============================================================================
