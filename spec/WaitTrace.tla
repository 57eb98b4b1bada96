------------------------------ MODULE WaitTrace ------------------------------
(* Recorded runs of the real helpers. cfg.mode "step" records the delays of *)
(* Backoff.step; the other modes record the calls of the helper's function. *)
EXTENDS Wait, DetTrace

TI(cfg) == [run |-> WInit(cfg, cfg.t0), last |-> cfg.t0]

TVerdict(s, e) ==
  LET r == s.run IN
  IF e.k \notin {"bstep", "jit"} /\ Overdue(r, e.t) THEN "C20:nothing happened when it was due"
  ELSE CASE e.k = "in" -> IF MayStart(r, e.t) THEN ""
                          ELSE IF r.stop >= 0 THEN "C20:ran after the stop"
                          ELSE IF ~r.more \/ r.phase # "wait" THEN "C20:one attempt too many"
                          ELSE "C20:attempt at the wrong time"
         [] e.k = "out" -> IF MayFinish(r, e.t, e.r) THEN "" ELSE "C20:attempt interrupted"
         [] e.k = "stop" -> ""
         [] e.k = "cancel" -> ""
         [] e.k = "end" -> IF MayEnd(r, e.t, e.r) THEN "" ELSE "C20:wrong end " \o e.r
         [] e.k = "same" -> IF e.v THEN "" ELSE "C20:backoff changed"
         [] e.k = "bstep" -> LET x == BStep(r.b, r.c) IN
                             IF In(x.lo, x.hi, e.d) THEN "" ELSE "C20:wrong delay"
         [] e.k = "jit" -> LET f == IF e.n <= 0 THEN <<1, 1>> ELSE <<e.n, e.m>> IN   \* between d and d * (1 + factor)
                           IF In(e.d, e.d + (e.d * f[1]) \div f[2], e.r) THEN "" ELSE "C20:wrong jitter"
         [] e.k = "fin" -> IF r.phase = "done" \/ ~e.expect THEN "" ELSE "C20:never ended"
         [] OTHER -> "C20:" \o e.k
TStep(s, e) ==
  LET r == s.run
      n == CASE e.k = "in" -> Started(r, e.t)
             [] e.k = "out" -> Finished(r, e.t, e.r)
             [] e.k = "stop" -> Stopped(r, e.t)
             [] e.k = "cancel" -> Cancelled(r, e.t)
             [] e.k = "end" -> Ended(r)
             [] e.k = "bstep" -> [r EXCEPT !.b = BStep(r.b, r.c).b]
             [] OTHER -> r
  IN [run |-> n, last |-> e.t]
=============================================================================
