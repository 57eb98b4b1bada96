--------------------------- MODULE RateLimitTrace ---------------------------
(* Replays recorded calls of the real limiters; cfg.parts lists the parts   *)
(* of the limiter under test (one part, or several combined by maximum).    *)
EXTENDS RateLimit, DetTrace

PartInit(p) == IF p.kind = "item" THEN ItemInitTiny(p.base, p.max, p.skip) @@ [kind |-> "item"]
               ELSE BucketInitFrac(p.rate, p.den, p.burst) @@ [kind |-> "bucket"]
RInit(cfg) == [k \in 1..Len(cfg.parts) |-> PartInit(cfg.parts[k])]

\* delays are recorded as d us (microseconds, rounded) and u = 1/16384 s
\* (rounded); the bucket's are compared with a tolerance of one rounding step
Abs(x) == IF x < 0 THEN -x ELSE x
ItemIs(p, e) == e.us = ItemDelay(p, e.x)
BucketU(p, e) == (16 * Missing(p, e.t)) \div p.rate
Tol(p) == 2 + 16 \div p.rate
BucketIs(p, e) == Abs(e.u - BucketU(p, e)) <= Tol(p)
Tiny(p, e) == Fails(p, e.x) < p.skip
\* d is at least this part's delay / is this part's delay
AtLeast(p, e) == IF p.kind = "item" THEN e.us >= (IF Tiny(p, e) THEN 0 ELSE ItemDelay(p, e.x) - 1)
                 ELSE e.u >= BucketU(p, e) - Tol(p)
Is(p, e) == IF p.kind = "item"
            THEN IF Tiny(p, e) THEN e.us <= MinI(p.base \div 2 + 1, p.max)
                 ELSE Abs(e.us - ItemDelay(p, e.x)) <= (IF e.us > 100000000 THEN 50 ELSE 0)
            ELSE BucketIs(p, e)
Count(p, x) == IF p.kind = "item" THEN Fails(p, x) ELSE 0

RVerdict(s, e) ==
  CASE e.k = "when" ->
         IF ~\A k \in DOMAIN s : AtLeast(s[k], e) THEN "C11:delay shorter than promised"
         ELSE IF ~\E k \in DOMAIN s : Is(s[k], e) THEN "C11:delay longer than any limiter asks for"
         ELSE ""
    [] e.k = "count" ->
         IF /\ \A k \in DOMAIN s : e.n >= Count(s[k], e.x)
            /\ \E k \in DOMAIN s : e.n = Count(s[k], e.x) THEN "" ELSE "C11:requeue count"
    [] e.k = "forget" -> ""
    [] OTHER -> "C11:" \o e.k
RStep(s, e) ==
  CASE e.k = "when" -> [k \in DOMAIN s |-> IF s[k].kind = "item" THEN ItemWhen(s[k], e.x)
                                           ELSE BucketWhen(s[k], e.t)]
    [] e.k = "forget" -> [k \in DOMAIN s |-> IF s[k].kind = "item" THEN ItemForget(s[k], e.x) ELSE s[k]]
    [] OTHER -> s
=============================================================================
