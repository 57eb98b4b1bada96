------------------------------- MODULE Pipeline ------------------------------
(***************************************************************************)
(* From an informer's notifications to reconciles: predicates see every     *)
(* event and decide, accepted events lead to a reconcile of the object that *)
(* reads what the event left, rejected ones to none.  Compared whenever      *)
(* everything has been delivered and no reconcile is under way.              *)
(*  s.N  notifications since the last comparison (as another handler of the *)
(*       same informer got them)      s.P  calls each predicate got          *)
(*  s.R  reconciles: key and the version it read                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

PKs == 1..4
\* the predicates of the driver
Accepts(p, e) ==
  CASE p = 1 -> e.op # "delete"
    [] p = 2 -> e.op # "update" \/ e.old # e.new
    [] p = 3 -> (IF e.op = "delete" THEN e.old ELSE e.new) % 2 = 0
    [] p = 4 -> e.op # "create"
    [] p = 5 -> e.key <= 2
    [] p = 6 -> e.op # "update" \/ e.old % 3 # 0
    [] OTHER -> TRUE
AllAccept(ps, e) == \A i \in 1..Len(ps) : Accepts(ps[i], e)

PInit(cfg) == [preds |-> cfg.preds, N |-> << >>, P |-> [i \in 1..Len(cfg.preds) |-> << >>], R |-> << >>, run |-> 0,
               over |-> FALSE]
Ev(e) == [op |-> e.op, key |-> e.key, old |-> e.old, new |-> e.new]

\* q is a subsequence of r
RECURSIVE SubFrom(_, _, _, _)
SubFrom(q, i, r, j) ==
  IF i > Len(q) THEN TRUE ELSE IF j > Len(r) THEN FALSE
  ELSE IF q[i] = r[j] THEN SubFrom(q, i + 1, r, j + 1) ELSE SubFrom(q, i, r, j + 1)
Sub(q, r) == SubFrom(q, 1, r, 1)
OfKey(q, k) == SelectSeq(q, LAMBDA x : x.key = k)

KeySay(s, k, now) ==
  LET n == OfKey(s.N, k)
      r == OfKey(s.R, k)
      acc == SelectSeq(n, LAMBDA x : AllAccept(s.preds, x))
  IN IF acc = << >> THEN (IF r = << >> THEN "" ELSE "rejected event reconciled")
     ELSE IF r = << >> THEN "accepted event not reconciled"
     ELSE IF AllAccept(s.preds, n[Len(n)]) /\ r[Len(r)].v # now THEN "last reconcile older than the last event"
     ELSE ""
PredSay(s, i) ==
  IF ~Sub(s.P[i], s.N) THEN "predicate saw something else than the events"
  ELSE IF ~Sub(SelectSeq(s.N, LAMBDA x : AllAccept(s.preds, x)), s.P[i]) THEN "predicate not asked" ELSE ""
Says(s, now) == {PredSay(s, i) : i \in 1..Len(s.preds)} \cup {KeySay(s, k, now[k]) : k \in PKs}
CalmSay(s, now) == LET b == Says(s, now) \ {""} IN IF b = {} THEN "" ELSE CHOOSE x \in b : TRUE

\* one event handed to the handler of a source directly
CallSay(s, e) ==
  LET ok == e.okold /\ e.oknew
      x == [op |-> e.op, key |-> e.key, old |-> e.old, new |-> e.new]
      q == {e.q[i] : i \in 1..Len(e.q)}
  IN IF e.raised THEN "event raised"
     ELSE IF ~ok THEN (IF q = {} \/ (e.unknown /\ q = {e.key}) THEN "" ELSE "malformed object enqueued")
     ELSE IF AllAccept(s.preds, x) THEN (IF e.key \in q /\ q \subseteq {e.key} THEN "" ELSE "accepted event not enqueued")
     ELSE IF q = {} THEN "" ELSE "rejected event enqueued"

\* one event handed to the enqueueing handler itself, perhaps without metadata
HandSay(e) ==
  IF e.raised THEN "event raised"
  ELSE IF {e.q[i] : i \in 1..Len(e.q)} = {e.keys[i] : i \in 1..Len(e.keys)} THEN "" ELSE "event enqueued the wrong objects"

PVerdict(s, e) ==
  CASE e.k = "calm" -> IF e.open /\ s.run = 0 /\ 1 \in {e.ok[i] : i \in 1..Len(e.ok)} THEN CalmSay(s, e.srv[1]) ELSE ""
    [] e.k = "rr" -> IF e.r \in {"value", "absent", "cancelled"} THEN "" ELSE "reconciler could not read"
    [] e.k = "rs" -> IF e.key = 0 THEN "request of no object" ELSE ""
    [] e.k = "call" -> CallSay(s, e)
    [] e.k = "hand" -> HandSay(e)
    [] e.k = "quiet" -> IF s.run # 0 THEN "reconcile never ends" ELSE ""
    [] e.k \in {"spin", "hang"} -> e.k
    [] OTHER -> ""
PStep(s, e) ==
  CASE e.k = "n" -> [s EXCEPT !.N = Append(@, Ev(e))]
    [] e.k = "pred" -> [s EXCEPT !.P[e.i] = Append(@, Ev(e))]
    [] e.k = "rs" -> [s EXCEPT !.run = @ + 1]
    [] e.k = "rr" -> [s EXCEPT !.R = Append(@, [key |-> e.key, v |-> e.v])]
    [] e.k = "re" -> [s EXCEPT !.run = @ - 1]
    [] e.k = "calm" -> IF e.open /\ s.run = 0 /\ 1 \in {e.ok[i] : i \in 1..Len(e.ok)}
                       THEN [s EXCEPT !.N = << >>, !.R = << >>, !.P = [i \in DOMAIN s.P |-> << >>]] ELSE s
    [] OTHER -> s
=============================================================================
