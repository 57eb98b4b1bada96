------------------------------ MODULE LinTrace ------------------------------
(***************************************************************************)
(* Generic trace checker for components with an API of (possibly blocking) *)
(* calls.  A trace is a sequence of events recorded from the real code:    *)
(*   [k |-> "call",   id, t, op, ...]   a task enters an API call          *)
(*   [k |-> "ret",    id, t, r]         the call returned r                *)
(*   [k |-> "cancel", id, t]            the call was cancelled (no result) *)
(*   [k |-> "probe",  t, ...]           synchronous reads of the object    *)
(*   [k |-> "env",    t, ...]           the environment changed something  *)
(*   [k |-> "idle",   t]                the event loop had nothing to run  *)
(* Each call takes effect atomically at one unlogged moment between its    *)
(* call and its return (linearization); internal steps of the component    *)
(* (timers firing, hand-offs) are unlogged too.  TLC searches for a        *)
(* placement of those silent steps that explains the whole trace.          *)
(*                                                                         *)
(* Time: virtual time only moves when the loop is idle, so the model may   *)
(* let time pass only when nothing it owes is outstanding (Idle).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Init0(_),        \* trace config -> initial component state
          Apply(_, _),     \* (state, call) -> set of [st, res]: possible effects now
          Internal(_),     \* state -> set of states reachable by one internal step
          ProbeOk(_, _),   \* (state, event): are these reads right?
          EnvStep(_, _),   \* (state, event) -> set of states
          CancelEffect(_, _),\* (state, call) -> set of states a cancelled call may leave
          Due(_),          \* state -> set of times at which something becomes due
          SetNow(_, _),    \* (state, t) -> state
          Quiet(_)         \* state: no internal obligation outstanding

VARIABLES tid, pos, ms, pend, clk

Traces == JsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)
Slack == 4

lvars == <<tid, pos, ms, pend, clk>>

Ev == Traces[tid].ev[pos]
More == pos <= Len(Traces[tid].ev)

\* registers: furthest event index consumed per trace
Note == TLCGet(tid) >= pos \/ TLCSet(tid, pos)
\* one acceptance is enough: do not explore a trace further once accepted
NotDone == TLCGet(tid) <= Len(Traces[tid].ev)
\* search budget per trace: beyond it the trace is reported undecided
Limit == IF "LIMIT" \in DOMAIN IOEnv THEN atoi(IOEnv.LIMIT) ELSE 20000
Budget == TLCGet(NT + tid) < Limit /\ TLCSet(NT + tid, TLCGet(NT + tid) + 1)
Constraint == (NotDone \/ pos > Len(Traces[tid].ev)) /\ Note /\ Budget

TInit == /\ tid \in 1..NT
         /\ TLCSet(tid, 0) /\ TLCSet(NT + tid, 0)
         /\ pos = 1
         /\ ms = Init0(Traces[tid].cfg)
         /\ pend = << >>
         /\ clk = 0

Idle == /\ Quiet(ms)
        /\ \A id \in DOMAIN pend : ~pend[id].lin /\ Apply(ms, pend[id].c) = {}

Drop(f, id) == [x \in DOMAIN f \ {id} |-> f[x]]

TimeOk == Ev.t >= clk /\ Ev.t <= clk + Slack

Call == /\ Ev.k = "call" /\ TimeOk
        /\ Ev.id \notin DOMAIN pend
        /\ pend' = (Ev.id :> [c |-> Ev, lin |-> FALSE, res |-> ""]) @@ pend
        /\ pos' = pos + 1
        /\ UNCHANGED <<tid, ms, clk>>

Ret == /\ Ev.k = "ret" /\ TimeOk
       /\ Ev.id \in DOMAIN pend
       /\ pend[Ev.id].lin
       /\ pend[Ev.id].res = Ev.r
       /\ pend' = Drop(pend, Ev.id)
       /\ pos' = pos + 1
       /\ UNCHANGED <<tid, ms, clk>>

\* A cancelled call either did not happen at all, or left one of the effects
\* the component declares harmless (CancelEffect).
Cancel == /\ Ev.k = "cancel" /\ TimeOk
          /\ Ev.id \in DOMAIN pend
          /\ ~pend[Ev.id].lin
          /\ ms' \in {ms} \cup CancelEffect(ms, pend[Ev.id].c)
          /\ pend' = Drop(pend, Ev.id)
          /\ pos' = pos + 1
          /\ UNCHANGED <<tid, clk>>

Probe == /\ Ev.k = "probe" /\ TimeOk
         /\ ProbeOk(ms, Ev)
         /\ pos' = pos + 1
         /\ UNCHANGED <<tid, ms, pend, clk>>

Env == /\ Ev.k = "env" /\ TimeOk
       /\ ms' \in EnvStep(ms, Ev)
       /\ pos' = pos + 1
       /\ UNCHANGED <<tid, pend, clk>>

IdleEv == /\ Ev.k = "idle" /\ TimeOk
          /\ Idle
          /\ pos' = pos + 1
          /\ UNCHANGED <<tid, ms, pend, clk>>

\* silent: a pending call takes effect (never needed right before a call event)
Lin == /\ Ev.k # "call" \/ Ev.t > clk
       /\ \E id \in DOMAIN pend :
            /\ ~pend[id].lin
            /\ \E o \in Apply(ms, pend[id].c) :
                 /\ ms' = o.st
                 /\ pend' = [pend EXCEPT ![id].lin = TRUE, ![id].res = o.res]
       /\ UNCHANGED <<tid, pos, clk>>

IntStep == /\ Ev.k # "call" \/ Ev.t > clk
       /\ ms' \in Internal(ms)
       /\ UNCHANGED <<tid, pos, pend, clk>>

\* time passes only when nothing is outstanding, and stops at every due time
Tick == LET ds == {d \in Due(ms) : d > clk /\ d <= Ev.t}
            nt == IF ds = {} THEN Ev.t ELSE CHOOSE d \in ds : \A e \in ds : d <= e
        IN /\ Ev.t > clk
           /\ Idle
           /\ clk' = nt
           /\ ms' = SetNow(ms, nt)
           /\ UNCHANGED <<tid, pos, pend>>

TNext == More /\ (Call \/ Ret \/ Cancel \/ Probe \/ Env \/ IdleEv \/ Lin \/ IntStep \/ Tick)

TSpec == TInit /\ [][TNext]_lvars

\* total verdict: one line per trace
Report == \A i \in 1..NT :
            IF TLCGet(i) > Len(Traces[i].ev)
            THEN TRUE
            ELSE IF TLCGet(NT + i) >= Limit THEN PrintT(<<"LIMIT", i, TLCGet(i)>>)
            ELSE PrintT(<<"REJECT", i, TLCGet(i)>>)
Post == Report /\ PrintT(<<"CHECKED", NT>>)
=============================================================================
