------------------------------ MODULE RateLimit ------------------------------
(***************************************************************************)
(* Rate limiters.  Delays of the per-item limiter are in microseconds;     *)
(* the bucket counts tokens in 1/1024ths and time in 1/1024 s, so that     *)
(* `rate` units of tokens arrive per unit of time.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

\* per-item exponential: consecutive failures and the delay to give next
\* (skip: base is what the delay has become after so many doublings, before
\* that it is less than a microsecond's fraction of it)
ItemInit(base, max) == [base |-> base, max |-> max, fails |-> << >>, next |-> << >>, skip |-> 0]
ItemInitTiny(base, max, skip) == [ItemInit(base, max) EXCEPT !.skip = skip]
Fails(s, i) == IF i \in DOMAIN s.fails THEN s.fails[i] ELSE 0
ItemDelay(s, i) == IF i \in DOMAIN s.next THEN s.next[i] ELSE MinI(s.base, s.max)
ItemWhen(s, i) == LET d == ItemDelay(s, i) IN
   [s EXCEPT !.fails = (i :> Fails(s, i) + 1) @@ @,
             !.next = IF Fails(s, i) < s.skip THEN @ ELSE
                      (i :> (IF d > s.max \div 2 THEN s.max ELSE 2 * d)) @@ @]
ItemForget(s, i) == [s EXCEPT !.fails = [j \in DOMAIN @ \ {i} |-> @[j]],
                              !.next = [j \in DOMAIN @ \ {i} |-> @[j]]]

\* token bucket: rate / den tokens per second, a token is 1024 * den
One(b) == 1024 * b.den
BucketInitFrac(rate, den, burst) == [rate |-> rate, den |-> den, burst |-> burst * 1024 * den,
                                     tok |-> burst * 1024 * den, last |-> 0]
BucketInit(rate, burst) == BucketInitFrac(rate, 1, burst)
Refill(b, t) == LET full == (b.burst - b.tok) \div b.rate + 1 IN  \* time to fill up
                IF t - b.last >= full THEN b.burst
                ELSE MinI(b.burst, b.tok + (t - b.last) * b.rate)
BucketWhen(b, t) == [b EXCEPT !.tok = Refill(b, t) - One(b), !.last = t]
\* tokens missing after taking one: the delay is missing / rate time units
Missing(b, t) == Max(0, One(b) - Refill(b, t))
=============================================================================
