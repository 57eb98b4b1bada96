------------------------------ MODULE Election ------------------------------
(***************************************************************************)
(* What leader electors owe their users, as a monitor over the requests     *)
(* they make, what the API server stored, and their callbacks.  Electors    *)
(* are numbers, 0 is "no holder"; times are in 1/1024 s.                    *)
(*  s.h/tr/rec/cm  holder and transition count stored, record, config map   *)
(*  s.acq          the acquire time stored (Never: none)                     *)
(*  s.hT/w         when the holder / the record or the map last changed     *)
(*  s.hist         all holders in order                                     *)
(*  per elector:                                                            *)
(*  ph     0 not running, 1 running, 2 cancelled, 3 crashed                 *)
(*  lead   0 not yet, 1 leading, 2 told to stop leading, 3 over             *)
(*  own    the leading callback ended by itself                             *)
(*  won    its record has been stored in this run (its reply has arrived)   *)
(*  ok     when the last such reply came    base  when that request left    *)
(*  act/pend  last request or reply, requests under way                     *)
(*  bad    last fault that hit it           stops  stopped callbacks        *)
(*  rep/rpos  last leader reported, and where in s.hist that was            *)
(*  got    when it last read the lock without having written since, or -1    *)
(*  dirty  its config map may have changed, or a fault, since `ok'          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Eps == 12
Max(a, b) == IF a > b THEN a ELSE b
Norm(tr) == Max(tr, 0)

New == [ph |-> 0, at |-> 0, cat |-> 0, lead |-> 0, led |-> FALSE, own |-> FALSE, over |-> 0, won |-> FALSE, ok |-> 0,
        base |-> -1, freed |-> FALSE, act |-> 0, pend |-> {}, bad |-> 0, stops |-> 0, rep |-> 0, rpos |-> 1,
        dirty |-> FALSE, got |-> -1]
EInit(cfg) == [chk |-> cfg.chk, E |-> 1..cfg.n, lease |-> cfg.lease, renew |-> cfg.renew, retry |-> cfg.retry,
               lat |-> cfg.lat, cleanup |-> cfg.cleanup, rel |-> cfg.rel,
               h |-> cfg.h, tr |-> cfg.tr, acq |-> cfg.acq, rec |-> cfg.rec, cm |-> cfg.cm, hT |-> 0, w |-> 0, hist |-> <<cfg.h>>,
               el |-> [e \in 1..cfg.n |-> New]]

\* the longest time between two attempts of a candidate, and a whole attempt
Again(s) == (22 * s.retry) \div 10
Turn(s) == Again(s) + 4 * s.lat + Eps

\* -- exclusion
Leading(s, e) == s.el[e].ph # 3 /\ s.el[e].lead \in {1, 2}
Claims(s, e, v, t) == /\ \E i \in 1..Len(v) : v[i] = e
                      /\ s.el[e].base >= 0 /\ ~s.el[e].freed /\ s.el[e].base + s.lease > t
Exclusive(s, ev) ==
  CASE ev.k = "lead" -> IF \E x \in s.E \ {ev.e} : Leading(s, x) THEN "two electors lead at once" ELSE ""
    [] ev.k = "isl" -> IF \E x, y \in s.E : x # y /\ Claims(s, x, ev.v, ev.t) /\ (Claims(s, y, ev.v, ev.t) \/ Leading(s, y))
                       THEN "two electors say they lead" ELSE ""
    [] OTHER -> ""

\* -- deadlines
Running(s, e) == s.el[e].ph = 1
LateEl(s, e, t) ==
  LET x == s.el[e] IN
  CASE x.ph \in {0, 3} -> ""
    [] x.ph = 2 /\ x.lead = 1 /\ t > x.cat -> "a cancelled elector leads on"
    [] x.ph = 2 /\ t > Max(x.cat, x.over) + s.cleanup + s.lat + Eps -> "a cancelled run does not end"
    [] x.ph = 2 -> ""
    [] x.lead = 1 /\ t > x.ok + s.retry + s.renew + Eps -> "leads on without renewing"
    [] x.lead \in {1, 3} /\ x.own /\ t > x.ok + s.retry + s.renew + s.cleanup + s.lat + Eps -> "runs on without renewing"
    [] x.lead = 3 /\ ~x.own /\ t > x.over + s.lat + Eps -> "a run that stopped leading does not end"
    [] x.led /\ (x.lead = 1 \/ x.own) /\ x.stops = 0 /\ x.pend = {} /\ t > x.act + s.retry + Eps
       /\ t + Eps < x.ok + s.renew -> "a leader does not try to renew"
    [] x.lead = 1 /\ x.got >= 0 /\ s.h = e /\ t > x.got + Eps -> "a leader does not renew"
    [] ~x.led /\ x.won /\ t > x.ok + Eps -> "holds the lock without leading"
    [] ~x.led /\ x.pend = {} /\ t > Max(x.act, x.at) + Again(s) + Eps -> "a candidate does not try"
    [] ~x.led /\ s.h = 0 /\ t > Max(Max(x.bad, x.at), s.w) + Turn(s) -> "a free lock is not taken"
    [] x.lead = 1 /\ s.h = 0 /\ t > Max(Max(x.bad, x.at), s.w) + Turn(s) -> "a leader does not write its lost record again"
    [] ~x.led /\ s.h # 0 /\ t > Max(Max(x.bad, x.at), s.w) + s.lease + 2 * Turn(s) -> "an expired lock is not taken"
    [] (~x.led \/ s.h = e) /\ s.h # 0 /\ x.rep # s.h /\ t > Max(Max(x.bad, x.at), s.hT) + Turn(s) -> "a leader is not reported"
    [] OTHER -> ""
Late(s, t) == IF \E e \in s.E : LateEl(s, e, t) # ""
              THEN LateEl(s, CHOOSE e \in s.E : LateEl(s, e, t) # "", t) ELSE ""

\* -- events
Counted(s, ev) ==
  CASE ev.h = 0 -> ev.tr = Norm(s.tr) \/ ev.tr = s.tr
    [] ~s.rec -> ev.tr \in {-1, 0, 1}
    [] ev.h = s.h -> Norm(ev.tr) = Norm(s.tr)
    [] OTHER -> ev.tr = Norm(s.tr) + 1
\* the holder's record says since when it holds the lock, when it last renewed, and for how long that counts
Never == -2000000000
Near(a, b) == a - b \in -1..1
Dated(s, ev) ==
  CASE ev.h = 0 -> TRUE
    [] ev.own > ev.s + 1 \/ ev.own + s.lat + Eps < ev.s -> FALSE
    [] ev.dur # s.lease \div 1024 -> FALSE
    [] s.rec /\ ev.h = s.h /\ s.acq # Never -> Near(ev.acq, s.acq)
    [] OTHER -> Near(ev.acq, ev.ren)
WriteVerdict(s, ev) ==
  CASE ev.h \notin {0, ev.e} -> "stored somebody else's name"
    [] ev.h = 0 /\ s.h # ev.e -> "released a lock it did not hold"
    [] ev.h = 0 /\ ~s.rel[ev.e] -> "released without being asked to"
    [] ~Counted(s, ev) -> "wrong transition count"
    [] ~Dated(s, ev) -> "wrong times in the record"
    [] OTHER -> ""
\* leading needs the own record stored in this run, and still there unless it disappeared
LeadVerdict(s, ev) ==
  LET x == s.el[ev.e] IN
  CASE ~x.won -> "leads without holding the lock"
    [] s.rec /\ s.h # ev.e -> "leads without holding the lock"
    [] x.led -> "leads twice in a run"
    [] x.ph \notin {1, 2} \/ (x.ph = 2 /\ ev.t > x.cat) -> "leads though not running"
    [] OTHER -> ""
EndVerdict(s, ev) ==
  LET x == s.el[ev.e] IN
  CASE x.stops = 0 -> "no stopped callback"
    [] ev.how = "raised" -> "run raised"
    [] x.ph = 1 /\ ~x.led -> "gave up without having led"
    [] s.rel[ev.e] /\ x.led /\ ~x.dirty /\ s.h = ev.e -> "lock not released"
    [] OTHER -> ""
Say(s, ev) ==
  LET x == s.el[ev.e] IN
  CASE ev.k = "write" -> WriteVerdict(s, ev)
    [] ev.k = "lead" -> LeadVerdict(s, ev)
    [] ev.k = "leadcancel" -> IF x.ph = 1 /\ ev.t + Eps < x.ok + s.renew THEN "stopped leading without need" ELSE ""
    [] ev.k = "stopped" -> IF x.stops > 0 THEN "stopped callback twice"
                           ELSE IF x.lead \in {1, 2} THEN "stopped callback while still leading" ELSE ""
    [] ev.k = "end" -> EndVerdict(s, ev)
    [] ev.k = "new" -> IF ev.h # 0 /\ ev.h = x.rep THEN "a leader reported twice"
                       ELSE IF ev.h # 0 /\ ~(\E j \in x.rpos..Len(s.hist) : s.hist[j] = ev.h) THEN "wrong leader reported"
                       ELSE ""
    [] OTHER -> ""
Denies(s, ev) == \E e \in s.E : /\ s.el[e].ph = 1 /\ s.el[e].lead = 1 /\ s.h = e /\ s.el[e].pend = {} /\ ~s.el[e].dirty
                                /\ ~(\E i \in 1..Len(ev.v) : ev.v[i] = e)
Handed(s, ev) ==
  IF Late(s, ev.t) # "" THEN Late(s, ev.t)
  ELSE IF ev.k = "isl" THEN (IF Denies(s, ev) THEN "a leader says it is not" ELSE "")
  ELSE IF ev.k \in {"write", "lead", "leadcancel", "stopped", "end", "new"} THEN Say(s, ev)
  ELSE ""

EVerdict(s, ev) == IF s.chk = "C17" THEN Exclusive(s, ev) ELSE Handed(s, ev)

\* -- state
Hold(s, h, t) == IF h = s.h THEN s ELSE [s EXCEPT !.h = h, !.hT = t, !.hist = Append(@, h)]
DirtyAll(s, e) == [s EXCEPT !.el = [x \in s.E |-> IF x = e THEN @[x] ELSE [@[x] EXCEPT !.dirty = TRUE]]]
Pos(s, x, h) == CHOOSE j \in x.rpos..Len(s.hist) : s.hist[j] = h /\ \A i \in x.rpos..(j - 1) : s.hist[i] # h
ElStep(s, x, ev) ==
  CASE ev.k = "start" -> [New EXCEPT !.ph = 1, !.at = ev.t, !.act = ev.t, !.rep = x.rep, !.rpos = x.rpos,
                                     !.base = x.base, !.freed = x.freed, !.bad = x.bad]
    [] ev.k = "cancel" -> [x EXCEPT !.ph = 2, !.cat = ev.t]
    [] ev.k = "new process" -> New
    [] ev.k = "crash" -> [x EXCEPT !.ph = 3]
    [] ev.k = "req" -> [x EXCEPT !.act = ev.t, !.pend = @ \union {[id |-> ev.id, m |-> ev.m]}, !.got = -1]
    [] ev.k = "fault" -> [x EXCEPT !.bad = ev.t, !.dirty = TRUE]
    [] ev.k = "reply" -> LET won == ev.ok /\ ev.m # "GET" /\ (x.lead < 2 \/ x.own) IN
                         [x EXCEPT !.act = ev.t, !.pend = {p \in @ : p.id # ev.id},
                                   !.bad = IF ~ev.ok /\ ev.code \notin {404, 409} THEN ev.t ELSE @,
                                   !.won = @ \/ won, !.ok = IF won THEN ev.t ELSE @,
                                   !.got = IF ev.ok /\ ev.m = "GET" THEN ev.t ELSE -1]
    [] ev.k = "abort" -> [x EXCEPT !.pend = {p \in @ : p.id # ev.id},
                                   !.dirty = @ \/ (\E p \in x.pend : p.id = ev.id /\ p.m # "GET")]
    [] ev.k = "write" -> IF ev.h = 0 THEN [x EXCEPT !.freed = TRUE] ELSE [x EXCEPT !.base = ev.s, !.freed = FALSE,
                                                                                      !.dirty = (x.bad >= ev.s \/ ~\E p \in x.pend : p.id = ev.id)]
    [] ev.k = "lead" -> [x EXCEPT !.lead = 1, !.led = TRUE]
    [] ev.k = "leadcancel" -> [x EXCEPT !.lead = 2]
    [] ev.k = "unlead" -> [x EXCEPT !.lead = 3, !.over = ev.t, !.own = (x.lead = 1)]
    [] ev.k = "stopped" -> [x EXCEPT !.stops = @ + 1]
    [] ev.k = "end" -> [x EXCEPT !.ph = 0]
    [] ev.k = "new" -> [x EXCEPT !.rep = ev.h, !.rpos = IF ev.h = 0 THEN @ ELSE Pos(s, x, ev.h)]
    [] OTHER -> x
EStep(s, ev) ==
  LET a == IF "e" \in DOMAIN ev /\ ev.e \in s.E THEN [s EXCEPT !.el[ev.e] = ElStep(s, @, ev)] ELSE s IN
  CASE ev.k = "write" -> [DirtyAll(Hold(a, ev.h, ev.t), ev.e) EXCEPT !.tr = ev.tr, !.acq = ev.acq, !.rec = TRUE, !.cm = TRUE, !.w = ev.t]
    [] ev.k = "touch" -> [DirtyAll(a, 0) EXCEPT !.w = ev.t]
    [] ev.k = "gone" -> [DirtyAll(Hold(a, 0, ev.t), 0) EXCEPT !.tr = -1, !.acq = Never, !.rec = FALSE, !.cm = ev.cm, !.w = ev.t]
    [] OTHER -> a
=============================================================================
