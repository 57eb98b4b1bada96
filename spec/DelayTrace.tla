----------------------------- MODULE DelayTrace -----------------------------
(***************************************************************************)
(* A delaying queue holding thousands of items, served by a worker that    *)
(* takes and finishes items as soon as they come, as a monitor.            *)
(*  s.due[i]  when item i is promised (None: not at all), one promise per  *)
(*            item: the earliest of those asked for while it waits         *)
(*  s.now[i]  i was added without delay and not handed out since           *)
(*  s.seen    time of the latest event; s.jump: the loop was busy since    *)
(*            s.jump without a chance to run anything (None: it was not)   *)
(* Items are 1..cfg.n.  Time units are 1/1024 s.                           *)
(***************************************************************************)
EXTENDS DetTrace
None == 1000000000
DI(cfg) == [due |-> [i \in 1..cfg.n |-> None], now |-> {}, down |-> FALSE, jump |-> None, ends |-> 0]
Min2(a, b) == IF a < b THEN a ELSE b
\* promised for before the loop was busy, or the loop never was
Ordered(s, i) == \A j \in DOMAIN s.due : s.due[j] >= s.due[i] \/ s.due[j] >= s.jump
DV(s, e) ==
  CASE e.k = "get" ->
         IF e.x \notin DOMAIN s.due THEN "C08:handed out something else"
         ELSE IF e.x \in s.now THEN ""
         ELSE IF s.down THEN "C09:handed out after shutdown"
         ELSE IF s.due[e.x] = None THEN "C10:handed out without being due"
         ELSE IF s.due[e.x] > e.t THEN "C10:too early"
         ELSE IF ~Ordered(s, e.x) THEN "C10:out of order" ELSE ""
    [] e.k = "idle" ->
         IF e.pend # 0 THEN "C09:an add never returned"
         ELSE IF s.now # {} THEN "C08:never handed out"
         ELSE IF \E i \in DOMAIN s.due : s.due[i] <= e.t THEN "C10:not available though due"
         ELSE IF s.down /\ e.gets # 0 THEN "C09:a worker was not released"
         ELSE IF e.len # 0 THEN "C10:length" ELSE ""
    [] e.k = "end" -> IF s.down THEN "" ELSE "C09:shutdown signal without shutdown"
    [] e.k = "fin" -> IF s.down /\ s.ends >= e.workers THEN "" ELSE "C09:a worker was not released"
    [] e.k \in {"after", "add", "shut", "jump"} -> ""
    [] OTHER -> "C10:" \o e.k
DS(s, e) ==
  CASE e.k = "after" -> IF s.down THEN s
                        ELSE IF e.d <= 0 THEN [s EXCEPT !.now = @ \cup {e.x}]
                        ELSE [s EXCEPT !.due[e.x] = Min2(@, e.t + e.d)]
    [] e.k = "get" -> IF e.x \in s.now THEN [s EXCEPT !.now = @ \ {e.x}] ELSE [s EXCEPT !.due[e.x] = None]
    [] e.k = "jump" -> [s EXCEPT !.jump = Min2(@, e.from)]
    [] e.k = "idle" -> [s EXCEPT !.jump = None]
    [] e.k = "shut" -> [s EXCEPT !.down = TRUE, !.due = [i \in DOMAIN @ |-> None]]
    [] e.k = "end" -> [s EXCEPT !.ends = @ + 1]
    [] OTHER -> s
=============================================================================
