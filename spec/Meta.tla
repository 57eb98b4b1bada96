--------------------------------- MODULE Meta --------------------------------
(* How objects are identified: store keys and group/version/kind.           *)
EXTENDS Integers, Sequences, TLC
KeyOf(ns, name) == IF ns = "" THEN name ELSE ns \o "/" \o name
ApiVersion(g, v) == IF g = "" THEN v ELSE g \o "/" \o v
=============================================================================
