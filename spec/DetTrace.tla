------------------------------ MODULE DetTrace ------------------------------
(***************************************************************************)
(* Trace checker for deterministic specifications and for monitors: the    *)
(* spec says for every recorded event whether it is allowed now (Verdict   *)
(* = "" or the name of the clause it breaks) and what the state becomes.   *)
(* Every trace gets a total verdict.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS DInit(_),       \* trace config -> state
          Verdict(_, _),  \* (state, event) -> "" or the broken clause
          DStep(_, _)     \* (state, event) -> state

VARIABLES tid, pos, ms, bad
dvars == <<tid, pos, ms, bad>>

Traces == JsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

TInit == /\ tid \in 1..NT /\ pos = 1 /\ bad = ""
         /\ ms = DInit(Traces[tid].cfg)

TNext == /\ bad = "" /\ pos <= Len(Traces[tid].ev)
         /\ LET e == Traces[tid].ev[pos]
                v == Verdict(ms, e)
            IN IF v # ""
               THEN /\ bad' = v
                    /\ PrintT(<<"REJECT", tid, pos, v>>)
                    /\ UNCHANGED <<tid, pos, ms>>
               ELSE /\ ms' = DStep(ms, e)
                    /\ pos' = pos + 1
                    /\ UNCHANGED <<tid, bad>>

TSpec == TInit /\ [][TNext]_dvars
Post == TLCGet("generated") >= 0 /\ PrintT(<<"CHECKED", NT>>)
=============================================================================
