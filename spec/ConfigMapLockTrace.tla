---------------------------- MODULE ConfigMapLockTrace ----------------------------
(* Recorded use of real config map locks.                                    *)
EXTENDS ConfigMapLock, DetTrace
GInit(cfg) == LInit(cfg)
GVerdict(s, e) == LET v == LVerdict(s, e) IN IF v = "" THEN "" ELSE "C25:" \o v
GStep(s, e) == LStep(s, e)
=============================================================================
