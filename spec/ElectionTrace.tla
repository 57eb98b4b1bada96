---------------------------- MODULE ElectionTrace ----------------------------
(* Recorded runs of real leader electors over a fake API server.            *)
EXTENDS Election, DetTrace
GInit(cfg) == EInit(cfg)
GVerdict(s, e) == LET v == EVerdict(s, e) IN IF v = "" THEN "" ELSE s.chk \o ":" \o v
GStep(s, e) == EStep(s, e)
=============================================================================
