----------------------------- MODULE ManagerTrace ----------------------------
(* Recorded runs of the real manager, cache and controllers.                *)
EXTENDS Manager, DetTrace
GInit(cfg) == MInit(cfg) @@ [chk |-> cfg.chk]
GVerdict(s, e) == LET v == MVerdict(s, e) IN IF v = "" THEN "" ELSE s.chk \o ":" \o v
GStep(s, e) == MStep(s, e)
=============================================================================
