----------------------------- MODULE MCRateLimit -----------------------------
(* The bucket never lets more than burst + rate*t requests become due in    *)
(* any window, and never delays while a token is left; the item limiter's   *)
(* delays are base*2^(n-1) capped.  Time steps of 256/1024 s.               *)
EXTENDS RateLimit
CONSTANTS Rate, Burst, MaxT, MaxN, Base, Cap, Items
VARIABLES b, t, dues, it
vars == <<b, t, dues, it>>
Init == b = BucketInit(Rate, Burst) /\ t = 0 /\ dues = <<>> /\ it = ItemInit(Base, Cap)
When == /\ Len(dues) < MaxN
        /\ dues' = Append(dues, [u |-> t * Rate + Missing(b, t), now |-> t, left |-> Refill(b, t)])
        /\ b' = BucketWhen(b, t) /\ UNCHANGED <<t, it>>
Tick == t < MaxT /\ t' = t + 256 /\ UNCHANGED <<b, dues, it>>
Fail(i) == it' = ItemWhen(it, i) /\ Fails(it, i) < 6 /\ UNCHANGED <<b, t, dues>>
Forget(i) == it' = ItemForget(it, i) /\ UNCHANGED <<b, t, dues>>
Next == When \/ Tick \/ \E i \in Items : Fail(i) \/ Forget(i)
Spec == Init /\ [][Next]_vars
\* dues[k].u is (due time) * rate in 1/1024 tokens
Window == \A i, j \in 1..Len(dues) : i <= j =>
            (j - i + 1) * One(b) <= Burst * One(b) + (dues[j].u - dues[i].u) + One(b) - 1
NoDelayWithToken == \A i \in 1..Len(dues) : dues[i].left >= One(b) => dues[i].u = dues[i].now * Rate
\* smallest delay: when delayed, the bucket is exactly empty at the due time
Smallest == \A i \in 1..Len(dues) : dues[i].u > dues[i].now * Rate => dues[i].left + (dues[i].u - dues[i].now * Rate) = One(b)
Pow2(n) == CHOOSE x \in {1, 2, 4, 8, 16, 32, 64} : \E k \in 0..6 : k = n /\ x = <<1, 2, 4, 8, 16, 32, 64>>[k + 1]
ItemExact == \A i \in Items : ItemDelay(it, i) = MinI(Cap, Base * Pow2(Fails(it, i)))
=============================================================================
