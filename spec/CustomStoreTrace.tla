--------------------------- MODULE CustomStoreTrace ---------------------------
(* The store stand-in made of functions (C26): every call goes to the       *)
(* function given for it, once, with the caller's arguments, and returns    *)
(* (or raises) what that function did; without one nothing happens, lists   *)
(* are empty and lookups find nothing.  A stand-in used as the store of a   *)
(* reflector is told what the server said (tested as one more caller).      *)
EXTENDS DetTrace
Given(cfg, op) == op \in {cfg.given[i] : i \in 1..Len(cfg.given)}
XInit(cfg) == cfg
Want(s, e) ==
  IF Given(s, e.op) THEN [calls |-> <<[op |-> e.op, args |-> e.args]>>, r |-> e.ret]
  ELSE [calls |-> << >>, r |-> IF e.op \in {"list", "list_keys"} THEN "[]" ELSE "None"]
XVerdict(s, e) ==
  IF e.k # "op" THEN "C26:" \o e.k
  ELSE LET w == Want(s, e) IN
    IF e.calls # w.calls THEN "C26:store made of functions, calls"
    ELSE IF e.r # w.r THEN "C26:store made of functions, result" ELSE ""
XStep(s, e) == s
===============================================================================
