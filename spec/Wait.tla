--------------------------------- MODULE Wait --------------------------------
(***************************************************************************)
(* Retry, poll and loop helpers, seen from the function they call.         *)
(* State s: phase "wait" (before an attempt), "in" (attempt running),      *)
(*   "done"; lo..hi window for the next attempt; ends = the ways the       *)
(*   helper may end now, each with its window; dl = deadline (-1: none);   *)
(*   stop = time it was told to stop (-1: not); b = backoff state;         *)
(*   n = attempts so far; c = configuration.                               *)
(* Time is in ticks; durations are windows because of jitter and rounding. *)
(* c.mode: "backoff"  retry with exponential backoff                       *)
(*         "poll"     poll (c.imm: check first, c.timeout: -1 = for ever)  *)
(*         "loop"     rerun for ever (c.sliding, c.stoppable)              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Tol    \* rounding of recorded times

WMax(a, b) == IF a > b THEN a ELSE b
JMax(d, c) == d + (d * c.jn) \div c.jd

\* one step of a backoff: how long to wait, and what is left
BStep(b, c) ==
  LET left == b.steps - 1
      nd == (b.dur * c.fn) \div c.fd
      capped == c.fn > 0 /\ c.cap > 0 /\ nd > c.cap
  IN IF b.steps < 1 THEN [b |-> b, lo |-> b.dur, hi |-> JMax(b.dur, c)]
     ELSE [b |-> [steps |-> IF capped THEN 0 ELSE left,
                  dur |-> IF c.fn = 0 THEN b.dur ELSE IF capped THEN c.cap ELSE nd],
           lo |-> b.dur, hi |-> JMax(b.dur, c)]

E(r, lo, hi) == [r |-> r, lo |-> lo, hi |-> hi]

WInit(c, t) ==
  LET s == [phase |-> "wait", lo |-> t, hi |-> t, ends |-> {}, dl |-> -1, stop |-> -1, more |-> TRUE,
            cancelled |-> FALSE, n |-> 0, lastin |-> t, c |-> c,
            b |-> [steps |-> c.steps, dur |-> c.dur]]
  IN CASE c.mode = "backoff" ->
            IF c.steps = 0 THEN [s EXCEPT !.more = FALSE, !.ends = {E("timeout", t, t)}] ELSE s
       [] c.mode = "poll" ->
            IF c.imm THEN s
            ELSE [s EXCEPT !.lo = t + c.dur, !.hi = t + c.dur,
                           !.dl = IF c.timeout >= 0 THEN t + c.timeout ELSE -1]
       [] OTHER -> s

In(lo, hi, t) == lo - Tol <= t /\ t <= hi + Tol

\* may an attempt start now?
MayStart(s, t) ==
  /\ s.phase = "wait" /\ s.more /\ ~s.cancelled /\ s.stop < 0
  /\ In(s.lo, s.hi, t)
  /\ s.dl < 0 \/ t <= s.dl + Tol
Started(s, t) == [s EXCEPT !.phase = "in", !.lastin = t, !.n = @ + 1]

MayFinish(s, t, r) ==
  /\ s.phase = "in"
  /\ r = "cancelled" => s.cancelled \/ (s.dl >= 0 /\ In(s.dl, s.dl, t))
Finished(s, t, r) ==
  LET w == [s EXCEPT !.phase = "wait"] IN
  IF r = "raise" THEN [w EXCEPT !.more = FALSE, !.ends = {E("raise", t, t)}]
  ELSE IF r = "cancelled" THEN [w EXCEPT !.more = FALSE]
  ELSE CASE s.c.mode = "backoff" ->
              IF r = "true" THEN [w EXCEPT !.more = FALSE, !.ends = {E("ok", t, t)}]
              ELSE IF s.b.steps = 1 THEN [w EXCEPT !.more = FALSE, !.ends = {E("timeout", t, t)}]
              ELSE LET x == BStep(s.b, s.c) IN
                   IF x.b.steps = 0
                   THEN [w EXCEPT !.b = x.b, !.more = FALSE, !.ends = {E("timeout", t + x.lo, t + x.hi)}]
                   ELSE [w EXCEPT !.b = x.b, !.lo = t + x.lo, !.hi = t + x.hi]
         [] s.c.mode = "poll" ->
              IF r = "true" THEN [w EXCEPT !.more = FALSE, !.ends = {E("ok", t, t)}]
              ELSE [w EXCEPT !.lo = t + s.c.dur, !.hi = t + s.c.dur,
                             !.dl = IF s.c.imm /\ s.n = 1 /\ s.c.timeout >= 0 THEN t + s.c.timeout ELSE @]
         [] OTHER -> \* loop: the period runs from the end (sliding) or the start of the run
              IF s.stop >= 0 THEN w
              ELSE IF s.c.sliding THEN [w EXCEPT !.lo = t + s.c.dur, !.hi = t + JMax(s.c.dur, s.c)]
              ELSE [w EXCEPT !.lo = WMax(t, s.lastin + s.c.dur),
                             !.hi = WMax(t, s.lastin + JMax(s.c.dur, s.c))]

Stopped(s, t) == [s EXCEPT !.stop = t]
Cancelled(s, t) == [s EXCEPT !.cancelled = TRUE, !.stop = IF @ < 0 THEN t ELSE @]

MayEnd(s, t, r) ==
  /\ s.phase = "wait"
  /\ \/ \E e \in s.ends : e.r = r /\ In(e.lo, e.hi, t)
     \/ r = "timeout" /\ s.dl >= 0 /\ In(s.dl, s.dl, t)
     \/ r = "cancelled" /\ s.cancelled
     \/ r = "none" /\ s.c.mode = "loop" /\ s.c.stoppable /\ s.stop >= 0
Ended(s) == [s EXCEPT !.phase = "done", !.more = FALSE]

\* something should have happened before t
Overdue(s, t) ==
  \/ s.phase = "wait" /\ s.ends # {} /\ \A e \in s.ends : t > e.hi + Tol
  \/ s.phase # "done" /\ s.dl >= 0 /\ t > s.dl + Tol
  \/ s.phase = "wait" /\ s.stop >= 0 /\ t > s.stop + Tol /\ t > s.lastin + Tol /\ s.ends = {} /\ s.n = 0
  \/ s.phase = "wait" /\ s.ends = {} /\ s.stop < 0 /\ s.more /\ t > s.hi + Tol
           /\ ~(s.dl >= 0 /\ t <= s.dl + Tol)
=============================================================================
