------------------------------ MODULE MCElection -----------------------------
(***************************************************************************)
(* The leader election protocol: candidates read the lock, wait for the     *)
(* lease of whoever holds it to pass since they first saw its present       *)
(* record, and write their own name only over what they have read; a leader *)
(* renews, stops when it could not within the renew deadline or is          *)
(* cancelled, and may then release.  Requests take up to L, may fail, or    *)
(* have their replies lost, or reach the server after the elector has       *)
(* given up on them; electors crash and come back; others touch the map.    *)
(* Only ages of things matter, so time is unbounded and the model finite.   *)
(*                                                                          *)
(* holder         the stored holder, 0 free       wAge  age of the record   *)
(* per elector:                                                             *)
(*  pc     off, sleep, get, put, rel (a release)                            *)
(*  age    of the sleep or request     ap  the server has served it         *)
(*  capH/capSame/capOk  what the reply says: holder, same record as seen,   *)
(*         accepted                                                         *)
(*  fresh  the record read is still the one stored                          *)
(*  rvc    the map is still the one read or written                         *)
(*  seen   the stored record is the one it observed    obs  since when      *)
(*  exp    the lease had passed when this attempt began                     *)
(*  self   the observed holder is itself                                    *)
(*  lead, ok  leading, and time since its last renewal                      *)
(*  orph   age of a given-up write still on its way, or -1; orv: rvc for it *)
(*  orel   it is a release                                                  *)
(*  wait   how long it has been able to take a free lock without doing so   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, Lease, Renew, Retry, MaxRetry, L, Release, Faults, Crashes, Touches, Count
VARIABLES holder, wAge, el
vars == <<holder, wAge, el>>
E == 1..N
Off == [pc |-> "off", age |-> 0, ap |-> FALSE, capH |-> 0, capSame |-> FALSE, capOk |-> FALSE, fresh |-> FALSE,
        rvc |-> FALSE, seen |-> FALSE, obs |-> 0, exp |-> FALSE, self |-> FALSE, lead |-> FALSE, ok |-> 0,
        orph |-> -1, orv |-> FALSE, orel |-> FALSE, wait |-> 0]
\* bounds of the property, see Turn of Election.tla
Turn == MaxRetry + 4 * L
Bound == Lease + 2 * Turn
Min(a, b) == IF a < b THEN a ELSE b

Init == holder = 0 /\ wAge = 0 /\ el = [e \in E |-> Off]
Set(e, r) == el' = [el EXCEPT ![e] = r]
Same == UNCHANGED <<holder, wAge>>

\* sleep is over: a leader's attempts are Retry apart, a candidate's up to MaxRetry
Attempt(e) == LET x == el[e] IN
  /\ x.pc = "sleep" /\ x.age >= Retry
  /\ Set(e, [x EXCEPT !.pc = "get", !.age = 0, !.ap = FALSE, !.exp = (x.obs >= Lease)]) /\ Same
Start(e) == LET x == el[e] IN
  /\ x.pc = "off" /\ Same
  /\ Set(e, [x EXCEPT !.pc = "get", !.age = 0, !.ap = FALSE, !.exp = (x.obs >= Lease), !.wait = 0])
\* what only matters during a request
Forget(x) == [x EXCEPT !.ap = FALSE, !.capH = 0, !.capSame = FALSE, !.capOk = FALSE, !.fresh = FALSE, !.exp = FALSE]
Sleep(x) == [Forget(x) EXCEPT !.pc = "sleep", !.age = 0]
ServeGet(e) == LET x == el[e] IN
  /\ x.pc = "get" /\ ~x.ap /\ Same
  /\ Set(e, [x EXCEPT !.ap = TRUE, !.capH = holder, !.capSame = x.seen, !.fresh = TRUE, !.rvc = TRUE])
\* a free lock is taken; another's only when its lease has passed since its record was first seen
GotGet(e) == LET x == el[e]
                 y == IF x.capSame THEN x ELSE [x EXCEPT !.seen = x.fresh, !.obs = 0, !.self = (x.capH = e), !.exp = FALSE]
             IN
  /\ x.pc = "get" /\ x.ap /\ Same
  /\ Set(e, IF y.capH # 0 /\ ~y.exp /\ ~y.self THEN Sleep(y) ELSE [Forget(y) EXCEPT !.pc = "put", !.age = 0])
\* everybody else's idea of the map and the record is outdated by a write
Write(e, r, h) == /\ holder' = h /\ wAge' = 0
                  /\ el' = [x \in E |-> IF x = e THEN r
                                        ELSE [el[x] EXCEPT !.fresh = FALSE, !.rvc = FALSE, !.orv = FALSE, !.seen = FALSE,
                                                           !.wait = 0]]
ServePut(e) == LET x == el[e] IN
  /\ x.pc \in {"put", "rel"} /\ ~x.ap
  /\ IF x.rvc THEN Write(e, [x EXCEPT !.ap = TRUE, !.capOk = TRUE, !.seen = FALSE, !.fresh = FALSE, !.orv = FALSE, !.wait = 0],
                         IF x.pc = "rel" THEN 0 ELSE e)
     ELSE Set(e, [x EXCEPT !.ap = TRUE, !.capOk = FALSE]) /\ Same
GotPut(e) == LET x == el[e] IN
  /\ x.pc = "put" /\ x.ap /\ Same
  /\ Set(e, IF x.capOk THEN [Forget(x) EXCEPT !.pc = "sleep", !.age = IF x.lead THEN 0 ELSE Retry, !.self = TRUE, !.obs = 0,
                                      !.lead = TRUE, !.ok = 0, !.wait = 0]
            ELSE Sleep(x))
\* a request fails before the server sees it, or its reply is lost
Fail(e) == LET x == el[e] IN
  /\ Faults /\ x.pc \in {"get", "put"} /\ Same
  /\ Set(e, Sleep([x EXCEPT !.rvc = IF x.pc = "put" /\ x.ap /\ x.capOk THEN FALSE ELSE @, !.wait = 0]))
\* leading ends; a write may still be on its way; then the lock is released
StopLead(e, x) ==
  LET y == [Forget(x) EXCEPT !.lead = FALSE, !.ok = 0, !.wait = 0,
                     !.orph = IF x.pc = "put" /\ ~x.ap THEN x.age ELSE @,
                     !.orv = IF x.pc = "put" /\ ~x.ap THEN x.rvc ELSE @, !.orel = IF x.pc = "put" /\ ~x.ap THEN FALSE ELSE @,
                     !.rvc = IF x.pc = "put" /\ x.ap THEN FALSE ELSE @]
  IN IF x.lead /\ Release /\ x.self THEN [y EXCEPT !.pc = "rel", !.age = 0] ELSE [y EXCEPT !.pc = "off", !.age = 0]
Free(e) == el[e].orph = -1
Cancel(e) == LET x == el[e] IN x.pc \in {"sleep", "get", "put"} /\ Free(e) /\ Set(e, StopLead(e, x)) /\ Same
Deadline(e) == LET x == el[e] IN x.lead /\ x.ok >= Renew + Retry /\ Free(e) /\ Set(e, StopLead(e, x)) /\ Same
GotRel(e) == LET x == el[e] IN
  /\ x.pc = "rel" /\ (x.ap \/ Faults) /\ Same
  /\ Set(e, [Forget(x) EXCEPT !.pc = "off", !.age = 0, !.self = IF x.ap /\ x.capOk THEN FALSE ELSE @,
                      !.rvc = IF x.ap /\ x.capOk THEN FALSE ELSE @])
\* a new process knows nothing
Crash(e) == LET x == el[e] IN
  /\ Crashes /\ x.pc # "off" /\ Free(e) /\ Same
  /\ Set(e, IF x.pc \in {"put", "rel"} /\ ~x.ap
            THEN [Off EXCEPT !.orph = x.age, !.orv = x.rvc, !.orel = (x.pc = "rel")] ELSE Off)
Orphan(e) == LET x == el[e] IN
  /\ x.orph >= 0
  /\ IF x.orv THEN Write(e, [x EXCEPT !.orph = -1, !.rvc = FALSE, !.fresh = FALSE, !.seen = FALSE, !.wait = 0],
                         IF x.orel THEN 0 ELSE e)
     ELSE Set(e, [x EXCEPT !.orph = -1]) /\ Same
Lost(e) == el[e].orph >= 0 /\ Set(e, [el[e] EXCEPT !.orph = -1]) /\ Same
\* somebody changes the map but not the record
Touch == /\ Touches /\ Same
         /\ \E e \in E : el[e].rvc \/ el[e].orv
         /\ el' = [e \in E |-> [el[e] EXCEPT !.rvc = FALSE, !.orv = FALSE, !.wait = 0]]
Tick == /\ \A e \in E : LET x == el[e] IN
             /\ x.pc \in {"get", "put", "rel"} => x.age < L
             /\ x.pc = "sleep" => x.age < IF x.lead THEN Retry ELSE MaxRetry
             /\ x.lead => x.ok < Renew + Retry
             /\ x.orph < L
        /\ wAge' = (IF Count THEN Min(wAge + 1, Bound) ELSE 0) /\ UNCHANGED holder
        /\ el' = [e \in E |-> LET x == el[e] IN
                   [x EXCEPT !.age = IF x.pc = "off" THEN 0 ELSE @ + 1, !.obs = IF x.self THEN 0 ELSE Min(@ + 1, Lease),
                             !.ok = IF x.lead THEN @ + 1 ELSE 0, !.orph = IF @ >= 0 THEN @ + 1 ELSE @,
                             !.wait = IF x.pc = "off" \/ x.lead \/ ~Count THEN 0 ELSE @ + 1]]
Next == \/ \E e \in E : \/ Start(e) \/ Attempt(e) \/ ServeGet(e) \/ GotGet(e) \/ ServePut(e) \/ GotPut(e) \/ Cancel(e)
                        \/ Fail(e) \/ Deadline(e) \/ GotRel(e) \/ Crash(e) \/ Orphan(e) \/ Lost(e)
        \/ Touch \/ Tick
Spec == Init /\ [][Next]_vars

\* At most one elector leads, and then it is the one stored
Exclusion == \A e, f \in E : el[e].lead /\ el[f].lead => e = f
Stored == \A e \in E : el[e].lead => holder = e
\* the lease of a leader cannot have passed for anybody else
Lease1 == \A e \in E : el[e].lead => wAge < Lease
\* a live candidate takes a lock that nobody writes (wait starts again with every write, touch and fault)
Taken == \A e \in E : el[e].wait <= IF holder = 0 THEN Bound ELSE Bound
FreeTaken == \A e \in E : holder = 0 => el[e].wait <= Turn
=============================================================================
