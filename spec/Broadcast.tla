------------------------------ MODULE Broadcast ------------------------------
(***************************************************************************)
(* An event broadcaster with buffered watchers.                            *)
(*   s.inc   accepted and not completely processed, oldest first:          *)
(*           [k |-> "ev", n], [k |-> "watch", id, cap, pre], [k |-> "shut"]*)
(*   s.got   watchers that have received the head event already            *)
(*   s.w     watchers: [buf, cap, st, skip, spare]                         *)
(*           st "live" / "stopped" (by its user) / "closed" (by shutdown)  *)
(*           skip: some event was not delivered to it because it stopped   *)
(*           spare: 1 if a cancelled read may hold one event outside buf   *)
(*   s.req   requests made and not accepted yet (by id)                    *)
(*   s.ack   requests whose caller may be told now                         *)
(*   s.drop  drop events for full watchers instead of waiting              *)
(* cap 0 means a rendezvous: the event counts as delivered when consumed.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT QLen   \* how many requests may be queued

BInit(drop) == [inc |-> << >>, got |-> {}, w |-> << >>, req |-> << >>, ack |-> {}, drop |-> drop,
                shut |-> FALSE]

Ins(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rem(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Live(s) == {i \in DOMAIN s.w : s.w[i].st = "live"}
Full(w) == w.cap > 0 /\ Len(w.buf) >= w.cap + w.spare

Request(s, id, r) == [s EXCEPT !.req = Ins(@, id, r)]
\* a request is queued; an event's sender is told at once, the others later
Accept(s, id) ==
  LET r == s.req[id] IN
  [s EXCEPT !.req = Rem(@, id), !.inc = Append(@, [r EXCEPT !.id = id]),
            !.ack = IF r.k = "ev" THEN @ \cup {id} ELSE @]
CanAccept(s) == Len(s.inc) <= QLen
MustAccept(s) == Len(s.inc) < QLen

HasHead(s) == s.inc # << >> /\ ~s.shut
Head1(s) == Head(s.inc)
Pop(s) == [s EXCEPT !.inc = Tail(@), !.got = {}]

\* dropping: every watcher with room gets the event, at once
DropHead(s) ==
  LET n == Head1(s).n IN
  Pop([s EXCEPT !.w = [i \in DOMAIN @ |->
         IF @[i].st = "live" /\ ~Full(@[i]) THEN [@[i] EXCEPT !.buf = Append(@, n)] ELSE @[i]]])
\* waiting: one watcher at a time
CanGive(s, i) == /\ i \in DOMAIN s.w /\ i \notin s.got
                 /\ s.w[i].st = "live" \/ (s.w[i].st = "stopped" /\ ~s.w[i].skip)
                 /\ ~Full(s.w[i])
Give(s, i) == [s EXCEPT !.w[i].buf = Append(@, Head1(s).n), !.got = @ \cup {i}]
\* the head event still waits for this watcher
Holds(s, i) == s.w[i].st = "live" /\
               IF i \in s.got THEN s.w[i].cap = 0 /\ s.w[i].buf # << >> ELSE TRUE
HeadDone(s) == \A i \in DOMAIN s.w : ~Holds(s, i)
FinishHead(s) == Pop([s EXCEPT !.w = [i \in DOMAIN @ |->
                        IF @[i].st = "stopped" /\ i \notin s.got THEN [@[i] EXCEPT !.skip = TRUE] ELSE @[i]]])
Register(s) ==
  LET h == Head1(s) IN
  Pop([s EXCEPT !.w = Ins(@, h.id, [buf |-> h.pre, cap |-> h.cap, st |-> "live", skip |-> FALSE, spare |-> 0]),
                !.ack = @ \cup {h.id}])
CloseAll(s) ==
  [Pop([s EXCEPT !.w = [i \in DOMAIN @ |-> IF @[i].st = "live" THEN [@[i] EXCEPT !.st = "closed"] ELSE @[i]],
                 !.ack = @ \cup {Head1(s).id}]) EXCEPT !.shut = TRUE]

\* everything that may happen inside the broadcaster now
Steps(s) ==
  {Accept(s, i) : i \in {x \in DOMAIN s.req : CanAccept(s)}}
  \cup (IF ~HasHead(s) THEN {}
        ELSE CASE Head1(s).k = "ev" /\ s.drop -> {DropHead(s)}
               [] Head1(s).k = "ev" -> {Give(s, i) : i \in {x \in DOMAIN s.w : CanGive(s, x)}}
                                        \cup (IF HeadDone(s) THEN {FinishHead(s)} ELSE {})
               [] Head1(s).k = "watch" -> {Register(s)}
               [] OTHER -> {CloseAll(s)})

\* waiting for a watcher whose user does not read
Blocked(s) == /\ HasHead(s) /\ Head1(s).k = "ev" /\ ~s.drop
              /\ \E i \in Live(s) : IF i \in s.got THEN Holds(s, i) ELSE Full(s.w[i])
\* nothing owed
Settled(s) == /\ s.shut \/ s.inc = << >> \/ Blocked(s)
              /\ s.shut \/ s.req = << >> \/ ~MustAccept(s)

\* reading from a watcher
CanRead(w) == w.buf # << >>
ReadOne(s, i) == [s EXCEPT !.w[i].buf = Tail(@), !.w[i].spare = 0]
\* a cancelled read may already have taken an event out of the buffer: it is
\* kept for the next read, and its place in the buffer is free again
CancelRead(s, i) == IF s.w[i].buf = << >> THEN s ELSE [s EXCEPT !.w[i].spare = 1]
Ends(w) == w.st = "stopped" \/ (w.st = "closed" /\ w.buf = << >>)
StopW(s, i) == IF s.w[i].st = "live" THEN [s EXCEPT !.w[i].st = "stopped"] ELSE s
=============================================================================
