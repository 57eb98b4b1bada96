------------------------------ MODULE FakeSource ------------------------------
(***************************************************************************)
(* The stand-ins that tests of controllers run against.                    *)
(* A fake API source: a numbered history of changes, lists of what it adds *)
(* up to, and watches that replay it from a version on and then follow.    *)
(*   s.chg    the history: [t, key, n], n the object's content;            *)
(*            the version of a change is its place                         *)
(*   s.items  key -> [n, rv]                                               *)
(*   s.w      watches: [buf, st], buf the changes not read yet             *)
(*   s.shut                                                                *)
(* A fake watcher: a rendezvous between senders and readers.               *)
(*   f.out    what is being sent and not read yet, in order                *)
(*   f.ack    senders whose event was read, and who have not been told yet *)
(*   f.stop                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

FSInit == [chg |-> <<>>, items |-> <<>>, w |-> <<>>, shut |-> FALSE]
FSIns(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
FSRem(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* a change; live: also told to the watches that are open now
FSChange(s, t, k, n, live) ==
  LET rv == Len(s.chg) + 1 IN
  [s EXCEPT !.chg = Append(@, [t |-> t, key |-> k, n |-> n]),
            !.items = IF t = "DELETED" THEN FSRem(@, k) ELSE FSIns(@, k, [n |-> n, rv |-> rv]),
            !.w = [i \in DOMAIN @ |-> IF live /\ @[i].st = "live"
                                      THEN [@[i] EXCEPT !.buf = Append(@, rv)] ELSE @[i]]]
FSVersion(s) == Len(s.chg)
FSCanWatch(s, rv) == rv <= FSVersion(s)
FSWatch(s, id, rv) ==
  [s EXCEPT !.w = FSIns(@, id, [buf |-> [i \in 1..FSVersion(s) - rv |-> rv + i], st |-> "live"])]
FSRead(s, i) == [s EXCEPT !.w[i].buf = Tail(@)]
FSStop(s, i) == IF s.w[i].st = "live" THEN [s EXCEPT !.w[i].st = "stopped"] ELSE s
FSShutdown(s) == [s EXCEPT !.shut = TRUE,
                           !.w = [i \in DOMAIN @ |-> IF @[i].st = "live" THEN [@[i] EXCEPT !.st = "closed"] ELSE @[i]]]
FSEnds(w) == w.st = "stopped" \/ (w.st = "closed" /\ w.buf = <<>>)

\* opt: its sender gave up, the event may be told still but holds up nobody
FWInit == [out |-> <<>>, ack |-> {}, stop |-> FALSE]
FWEntry(id, e) == [id |-> id, e |-> e, opt |-> FALSE]
FWSend(f, id, e) == [f EXCEPT !.out = Append(@, FWEntry(id, e))]
FWSeen(f, x) == IF x.opt THEN f.ack ELSE f.ack \cup {x.id}
\* a sender gives up: its event is withdrawn, or stays for a reader
FWUnsend(f, id) ==
  IF id \in f.ack THEN {[f EXCEPT !.ack = @ \ {id}]}
  ELSE {[f EXCEPT !.out = SelectSeq(@, LAMBDA x : x.id # id)],
        [f EXCEPT !.out = [i \in DOMAIN @ |-> IF @[i].id = id THEN [@[i] EXCEPT !.opt = TRUE] ELSE @[i]]]}
\* starting over (forgetting that it was stopped, and what nobody waits for) takes its turn with the senders
FWReset(f, id) == [f EXCEPT !.out = Append(@, FWEntry(id, "reset"))]
FWResets(f) == {i \in DOMAIN f.out : f.out[i].e = "reset" /\ \A j \in 1..(i - 1) : f.out[j].opt}
FWResetDue(f) == FWResets(f) # {}
FWResetNow(f) == LET i == CHOOSE x \in FWResets(f) : TRUE IN
  [f EXCEPT !.out = SubSeq(@, i + 1, Len(@)), !.ack = FWSeen(f, f.out[i]), !.stop = FALSE]
FWCanRead(f) == f.out # <<>> /\ Head(f.out).e # "reset"
FWRead(f) == [f EXCEPT !.out = Tail(@), !.ack = FWSeen(f, Head(f.out))]
=============================================================================
