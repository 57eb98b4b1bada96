------------------------------ MODULE Reflector ------------------------------
(***************************************************************************)
(* The list-and-watch loop that feeds a store, seen from the API server    *)
(* and from the store.                                                     *)
(*  s.ph   "relist"  must list (by s.rt + grace)   "listing" list pending  *)
(*         "replace" must replace the store now    "open" must watch now   *)
(*         "opening" watch pending                 "watch" stream open     *)
(*         "either"  the last watch ended at once with nothing usable:     *)
(*                   listing and watching again are both acceptable        *)
(*  s.rvs  versions the next watch may start from (normally one)           *)
(*  s.last versions that may be reported as last synced                    *)
(*  s.q    events received and not handled: [op, id, rv] (op "" = only the *)
(*         version counts)                                                 *)
(*  s.busy an operation on the store is in progress                        *)
(*  s.end  "" / "clean" / "bad": how the stream ended                      *)
(*  s.n    events handled in this watch; s.amb: some were only skipped     *)
(*  s.rsf  when a resync failed (-1: none): this round must end            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RInit == [ph |-> "relist", rt |-> 0, rvs |-> {0}, last |-> {0}, q |-> << >>, busy |-> "", end |-> "",
          n |-> 0, amb |-> FALSE, t0 |-> 0, rsf |-> -1, stopped |-> FALSE, lst |-> [rv |-> 0, ids |-> << >>],
          first |-> TRUE]

Relist(s, t) == [s EXCEPT !.ph = "relist", !.rt = t, !.q = << >>, !.end = "", !.rsf = -1]

\* entries only carrying a version are handled without touching the store
RECURSIVE Drain(_)
Drain(s) == IF s.q # << >> /\ s.busy = "" /\ s.q[1].op = ""
            THEN Drain([s EXCEPT !.q = Tail(@), !.n = @ + s.q[1].n,
                                 !.rvs = IF s.q[1].sure /\ s.rsf < 0 THEN {s.q[1].rv} ELSE @ \cup {s.q[1].rv},
                                 !.last = IF s.q[1].sure /\ s.rsf < 0 THEN {s.q[1].rv} ELSE @ \cup {s.q[1].rv}])
            ELSE s
\* what the end of a stream leads to, once its events are handled
Settle(s0, t) ==
  LET s == Drain(s0) IN
  IF s.ph = "watch" /\ s.end # "" /\ s.q = << >> /\ s.busy = ""
  THEN IF s.end = "bad" THEN Relist(s, t)
       ELSE IF s.rsf >= 0 THEN [s EXCEPT !.ph = "either", !.rt = t]
       ELSE IF s.n = 0 /\ t - s.t0 < 1024
            THEN IF s.amb THEN [s EXCEPT !.ph = "either", !.rt = t] ELSE Relist(s, t)
       ELSE IF s.n = 0 /\ t - s.t0 = 1024 THEN [s EXCEPT !.ph = "either", !.rt = t]
       ELSE [s EXCEPT !.ph = "open", !.rt = t]
  ELSE s

CanList(s) == s.ph \in {"relist", "either"} \/ (s.rsf >= 0 /\ s.ph \in {"watch", "open"} /\ s.busy = "")
\* no hurry after a failure: a server in trouble is not asked at full speed
Pause == 512
TooSoon(s, t) == /\ ~s.first
                 /\ t < (IF s.ph \in {"relist", "either"} THEN s.rt ELSE s.rsf) + Pause
\* a watch asks to be ended after 5 to 10 minutes (seconds)
TimeoutOk(n) == n >= 300 /\ n <= 600
List(s) == [s EXCEPT !.first = FALSE, !.ph = "listing", !.rsf = -1, !.q = << >>, !.end = ""]
Listed(s, rv, ids) == [s EXCEPT !.ph = "replace", !.lst = [rv |-> rv, ids |-> ids]]
CanReplace(s, rv, ids) == s.ph = "replace" /\ s.busy = "" /\ rv = s.lst.rv /\ ids = s.lst.ids
Replaced(s, ok, t) == IF ok THEN [s EXCEPT !.ph = "open", !.rvs = {s.lst.rv}, !.last = {s.lst.rv}, !.busy = "", !.rt = t]
                      ELSE Relist([s EXCEPT !.busy = ""], t)
CanWatch(s, rv) == s.ph \in {"open", "either"} /\ rv \in s.rvs
Watch(s, rv) == [s EXCEPT !.ph = "opening", !.rvs = {rv}]
Opened(s, t) == [s EXCEPT !.ph = "watch", !.end = "", !.n = 0, !.amb = FALSE, !.t0 = t, !.q = << >>]

\* an event arrives; acc: it must reach the store; und: it is understood
Arrive(s, op, id, rv, acc) ==
  [s EXCEPT !.q = IF acc THEN Append(@, [op |-> op, id |-> id, rv |-> rv, n |-> 1, sure |-> TRUE]) ELSE @]
Bookmark(s, rv) == [s EXCEPT !.q = Append(@, [op |-> "", id |-> 0, rv |-> rv, n |-> 1, sure |-> TRUE])]
Skipped(s, rv) == [s EXCEPT !.amb = TRUE, !.q = IF rv = 0 THEN @
                     ELSE Append(@, [op |-> "", id |-> 0, rv |-> rv, n |-> 0, sure |-> FALSE])]

CanOp(s, op, id) == s.ph = "watch" /\ s.busy = "" /\ s.q # << >> /\ s.q[1].op = op /\ s.q[1].id = id
OpDone(s) == [s EXCEPT !.busy = "", !.rvs = {s.q[1].rv}, !.last = {s.q[1].rv}, !.n = @ + 1, !.q = Tail(@)]

Grace == 10240
Late(s, t) == ~s.stopped /\ \/ s.ph \in {"relist", "either"} /\ t > s.rt + Grace
                            \/ s.ph = "watch" /\ s.rsf >= 0 /\ s.busy = "" /\ t > s.rsf + Grace
\* nothing left to run: what must not be true then
StuckAtIdle(s) == /\ ~s.stopped
                  /\ \/ s.ph \in {"replace", "open"} /\ s.busy = ""
                     \/ s.ph = "watch" /\ s.q # << >> /\ s.busy = "" /\ s.rsf < 0
=============================================================================
