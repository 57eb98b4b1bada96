----------------------------- MODULE WiringTrace ------------------------------
(* Recorded wiring of the real code.                                        *)
EXTENDS Wiring, DetTrace
R(b) == IF b THEN "ok" ELSE "refused"
YInit(cfg) == [heard |-> << >>, reg |-> ClientInit, parts |-> PartsInit, inf |-> InfInit, objs |-> {}]
YVerdict(s, e) ==
  CASE e.k = "elector" -> IF e.r = R(ElectorOk(e)) THEN "" ELSE "C27:elector configuration"
    [] e.k = "bucket" -> IF e.r = R(BucketOk(e)) THEN "" ELSE "C27:rate limiter configuration"
    [] e.k = "client" -> IF e.r = R(ClientOk(s.reg, e.gvk)) THEN "" ELSE "C27:client definition"
    [] e.k = "lookup" ->   \* by kind: the type the client was defined with; by type: the kind
         IF e.byk = s.reg[e.gvk] /\ e.byt = e.gvk THEN "" ELSE "C27:client lookup"
    [] e.k = "type" ->   \* a definition that was refused left nothing behind
         IF e.r = TypeKind(s.reg, e.type) THEN "" ELSE "C27:refused client left its type"
    [] e.k = "hand" -> ""
    [] e.k = "part" -> IF e.cache = s.parts[e.id].cache /\ e.inject = s.parts[e.id].inject THEN "" ELSE "C27:part not given what it asks for"
    [] e.k = "nocache" -> IF e.r = "refused" THEN "" ELSE "C27:source without a cache"
    [] e.k = "index" -> IF e.r = R(IndexOk(s.inf, {e.names[i] : i \in 1..Len(e.names)})) THEN "" ELSE "C27:adding indexes"
    [] e.k = "handler" -> IF e.r = "ok" THEN "" ELSE "C27:adding a handler"
    [] e.k = "run" -> IF s.inf.ph = "new" THEN "" ELSE "C27:driver"
    [] e.k = "stop" -> ""
    [] e.k \in {"obj", "gone", "changed"} -> ""
    [] e.k = "saw" ->   \* everything that happened while it listened, as far as it listens
         LET h == s.heard[e.h] IN
         IF {e.ids[i] : i \in 1..Len(e.ids)} = h.adds /\ e.upd = h.upd /\ e.del = h.del THEN ""
         ELSE "C27:handler of an informer"
    [] e.k = "names" -> IF {e.names[i] : i \in 1..Len(e.names)} = s.inf.names /\ Len(e.names) = Cardinality(s.inf.names)
                        THEN "" ELSE "C27:indexes of an informer"
    [] e.k = "by" -> IF {e.ids[i] : i \in 1..Len(e.ids)} = s.objs THEN "" ELSE "C27:index of an informer"
    [] OTHER -> "C27:" \o e.k
Hears(s, h) == s.inf.ph = "running" /\ h \in s.inf.handlers
YStep(s, e) ==
  CASE e.k = "client" -> [s EXCEPT !.reg = ClientDefine(@, e.gvk, e.type)]
    [] e.k = "hand" -> [s EXCEPT !.parts = Hand(@, e.id, e)]
    [] e.k = "index" -> [s EXCEPT !.inf = AddIndex(@, {e.names[i] : i \in 1..Len(e.names)})]
    [] e.k = "handler" ->
         LET h == [add |-> e.add, update |-> e.update, delete |-> e.delete, upd |-> 0, del |-> 0,
                   adds |-> IF s.inf.ph = "running" /\ e.add THEN s.objs ELSE {}]
         IN [s EXCEPT !.inf = AddHandler(@, e.h), !.heard = [x \in DOMAIN @ \cup {e.h} |-> IF x = e.h THEN h ELSE @[x]]]
    [] e.k = "run" -> [s EXCEPT !.inf.ph = "running",
                                !.heard = [x \in DOMAIN @ |-> IF @[x].add THEN [@[x] EXCEPT !.adds = s.objs] ELSE @[x]]]
    [] e.k = "stop" -> [s EXCEPT !.inf.ph = "stopped"]
    [] e.k = "obj" -> [s EXCEPT !.objs = @ \cup {e.id}, !.heard = [x \in DOMAIN @ |->
                         IF Hears(s, x) /\ @[x].add THEN [@[x] EXCEPT !.adds = @ \cup {e.id}] ELSE @[x]]]
    [] e.k = "changed" -> [s EXCEPT !.heard = [x \in DOMAIN @ |->
                         IF Hears(s, x) /\ @[x].update THEN [@[x] EXCEPT !.upd = @ + 1] ELSE @[x]]]
    [] e.k = "gone" -> [s EXCEPT !.objs = @ \ {e.id}, !.heard = [x \in DOMAIN @ |->
                         IF Hears(s, x) /\ @[x].delete THEN [@[x] EXCEPT !.del = @ + 1] ELSE @[x]]]
    [] OTHER -> s
=============================================================================
