------------------------------ MODULE MetaTrace ------------------------------
(* Recorded key and type computations of the real code.                     *)
EXTENDS Meta, DetTrace
ZInit(cfg) == 0
ZVerdict(s, e) ==
  CASE e.k = "key" -> IF e.r = KeyOf(e.ns, e.name) THEN "" ELSE "C24:key " \o e.fn
    [] e.k = "marker" -> IF e.r = e.key THEN "" ELSE "C24:deletion marker key"
    [] e.k = "gvk" -> IF e.r = <<e.g, e.v, e.kind>> THEN "" ELSE "C24:group version kind"
    [] e.k = "mkav" -> IF e.av = ApiVersion(e.g, e.v) THEN "" ELSE "C24:driver"
    [] e.k = "read" -> IF e.r = <<e.ns, e.name, e.uid, e.rv>> THEN "" ELSE "C24:metadata"
    [] e.k = "list" -> IF e.r = e.rv /\ e.got = e.ids THEN "" ELSE "C24:list metadata"
    [] e.k = "explicit" -> IF e.r = e.key THEN "" ELSE "C24:explicit key"
    [] e.k = "odd" ->   \* refused, and nothing entered or left what holds objects
         IF e.r \in (CASE e.kind \in {"accessor", "list"} -> {"refused"} [] e.kind = "queue" -> {"refused", "key error"}
                       [] OTHER -> {"key error"}) /\ e.keys = <<"n/keep">> THEN ""
         ELSE "C24:object without metadata"
    [] e.k = "deltas" ->
         IF e.len = e.n /\ e.oldest = (IF e.n = 0 THEN 0 ELSE 1) /\ e.newest = e.n /\ e.key = e.want THEN ""
         ELSE "C24:pending changes of an object"
    [] OTHER -> "C24:" \o e.k
ZStep(s, e) == s
=============================================================================
