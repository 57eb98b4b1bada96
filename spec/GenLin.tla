------------------------------- MODULE GenLin -------------------------------
(***************************************************************************)
(* Generates scripts: explores the states of a component whose calls are   *)
(* made one at a time, each followed by everything that then can happen,   *)
(* and prints for every transition the shortest script that ends with it.  *)
(* States that look alike (Abs) are explored once.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS GInit,        \* initial component state
          GApply(_, _), \* (state, call) -> set of [st, res]
          GInternal(_), \* state -> set of states
          GCalls(_, _), \* (state, number of the next call) -> calls to try
          GWaits(_),    \* call: may stay blocked, and be cancelled then
          GAbs(_),      \* state -> what tells states apart
          GOp(_),       \* call -> what tells calls apart
          MaxTrail, MaxPend,
          Hist          \* how many calls back tell states apart too: 0 covers transitions, 1 pairs of them
VARIABLES ms, pend, trail
gvars == <<ms, pend, trail>>

One(S) == CHOOSE x \in S : TRUE
Without(s, i) == [j \in 1..Len(s) - 1 |-> IF j < i THEN s[j] ELSE s[j + 1]]
RECURSIVE Run(_, _)
Run(m, p) ==
  IF GInternal(m) # {} THEN Run(One(GInternal(m)), p)
  ELSE LET ready == {i \in 1..Len(p) : GApply(m, p[i]) # {}} IN
       IF ready = {} THEN [m |-> m, p |-> p]
       ELSE LET i == CHOOSE x \in ready : \A y \in ready : x <= y
            IN Run(One(GApply(m, p[i])).st, Without(p, i))

Init == ms = GInit /\ pend = <<>> /\ trail = <<>>
Do(c) == /\ GWaits(c) \/ GApply(ms, c) # {}
         /\ LET r == Run(ms, Append(pend, c)) IN
              /\ Len(r.p) <= MaxPend
              /\ ms' = r.m /\ pend' = r.p
         /\ trail' = Append(trail, c)
Cancel(i) == /\ pend' = Without(pend, i) /\ ms' = ms
             /\ trail' = Append(trail, [op |-> "cancel", i |-> i])
Next == Len(trail) < MaxTrail /\
        (\/ \E c \in GCalls(ms, Len(trail) + 1) : Do(c)
         \/ \E i \in 1..Len(pend) : Cancel(i))
Spec == Init /\ [][Next]_gvars
GView == <<GAbs(ms), [i \in 1..Len(pend) |-> GOp(pend[i])],
          [i \in 1..(IF Len(trail) < Hist THEN Len(trail) ELSE Hist) |->
             LET c == trail[Len(trail) + 1 - i] IN IF c.op = "cancel" THEN <<c.op, c.i>> ELSE GOp(c)]>>
Emit == PrintT(<<"SCRIPT", ToJson(trail')>>)
=============================================================================
