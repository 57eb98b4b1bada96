---------------------------- MODULE PipelineTrace ----------------------------
(* Recorded runs of informer, source, predicates, queue and reconciler.     *)
EXTENDS Pipeline, DetTrace
LInit(cfg) == PInit(cfg)
LVerdict(s, e) == LET v == PVerdict(s, e) IN IF v = "" THEN "" ELSE "C13:" \o v
LStep(s, e) == PStep(s, e)
=============================================================================
