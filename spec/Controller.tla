------------------------------ MODULE Controller -----------------------------
(***************************************************************************)
(* What a controller owes its reconciler, as a monitor over requests        *)
(* arriving and reconciles starting and ending (times in 1/1024 s).         *)
(*  s.run    requests being reconciled        s.W     number of workers     *)
(*  s.dirty  request -> 0 not waiting, 1 perhaps waiting, 2 waiting          *)
(*  s.fly    request -> adds of it called that have not returned yet         *)
(*  s.due    request -> set of [t, must]: pending delayed requeues           *)
(*  s.fails  request -> failures in a row                                    *)
(*  s.pause  sequence of times at which workers that saw an error resume     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sec == 1024
Tol == 2
\* 5 ms doubled for each failure, at most 1000 s
Backoff(n) == IF n >= 18 THEN 1000 * Sec ELSE (512 * 2^n) \div 100

CInit0(keys, w) == [run |-> {}, W |-> w, dirty |-> [k \in keys |-> 0], fly |-> [k \in keys |-> 0], due |-> [k \in keys |-> {}],
                    fails |-> [k \in keys |-> 0], pause |-> << >>, started |-> FALSE, stopped |-> FALSE,
                    over |-> FALSE]

Max2(a, b) == IF a > b THEN a ELSE b
Fired(s, k, t) == {e \in s.due[k] : e.t <= t - Tol - 1}
Near(s, k, t) == {e \in s.due[k] : e.t > t - Tol - 1 /\ e.t <= t + Tol}
Later(s, k, t) == {e \in s.due[k] : e.t > t + Tol}

MayStart(s, k, t) == s.dirty[k] > 0 \/ Fired(s, k, t) # {} \/ Near(s, k, t) # {}
MustStart(s, k, t) == s.dirty[k] = 2 \/ \E e \in Fired(s, k, t) : e.must

\* an add takes effect between its call and its return
Arriving(s, k) == [s EXCEPT !.dirty[k] = 2, !.fly[k] = @ + 1]
Arrived(s, k) == [s EXCEPT !.fly[k] = @ - 1]
Started(s, k, t) ==
  LET other == s.dirty[k] > 0 \/ Fired(s, k, t) # {} IN
  [s EXCEPT !.run = @ \cup {k}, !.dirty[k] = IF s.fly[k] > 0 THEN 1 ELSE 0,
            !.due[k] = Later(s, k, t) \cup (IF other THEN {[t |-> e.t, must |-> FALSE] : e \in Near(s, k, t)} ELSE {})]

\* ask for the request again after d; an earlier pending requeue absorbs a later one
Again(s, k, d, t) ==
  LET f == Fired(s, k, t)
      near == Near(s, k, t)
      late == Later(s, k, t)
      at == t + d
      absorbed == \E e \in late : e.must /\ e.t <= at
      unsure == near # {} \/ \E e \in late : ~e.must /\ e.t <= at
      keep == {e \in late : ~e.must \/ e.t <= at} \cup {[t |-> e.t, must |-> FALSE] : e \in near}
  IN [s EXCEPT !.dirty[k] = IF \E e \in f : e.must THEN 2 ELSE IF f # {} THEN Max2(@, 1) ELSE @,
               !.due[k] = keep \cup (IF absorbed THEN {} ELSE {[t |-> at, must |-> ~unsure]})]

Ended(s, k, r, d, t) ==
  LET a == [s EXCEPT !.run = @ \ {k}] IN
  CASE r = "ok" -> [a EXCEPT !.fails[k] = 0]
    [] r = "after" -> Again([a EXCEPT !.fails[k] = 0], k, d, t)
    [] r = "requeue" -> Again([a EXCEPT !.fails[k] = @ + 1], k, Backoff(s.fails[k]), t)
    [] r = "raise" -> Again([a EXCEPT !.fails[k] = @ + 1, !.pause = Append(@, t + Sec)], k, Backoff(s.fails[k]), t)
    \* not a result at all: the worker survives, nothing else is promised
    [] r = "junk" -> [a EXCEPT !.pause = Append(@, t + Sec), !.dirty[k] = Max2(@, 1)]
    [] OTHER -> a

Paused(s, t) == Cardinality({i \in 1..Len(s.pause) : s.pause[i] >= t - 1})
Free(s, t) == s.W - Cardinality(s.run) - Paused(s, t)
Waiting(s, t) == {k \in DOMAIN s.dirty \ s.run : MustStart(s, k, t)}

StartVerdict(s, k, t) ==
  IF s.over THEN "reconcile after the end"
  ELSE IF k \notin DOMAIN s.dirty THEN "unknown request"
  ELSE IF k \in s.run THEN "same request reconciled twice at once"
  ELSE IF Cardinality(s.run) >= s.W THEN "too many workers"
  ELSE IF ~MayStart(s, k, t) THEN "reconcile without reason or too early"
  ELSE ""
IdleVerdict(s, t) ==
  IF s.started /\ ~s.stopped /\ Free(s, t) > 0 /\ Waiting(s, t) # {} THEN "request not reconciled" ELSE ""
=============================================================================
