-------------------------------- MODULE Calls --------------------------------
(* Recorded calls: one line per call, checked in parallel.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, k
Chunks == 64
CallsInit == t = 0 /\ k = 0
CallsNext == \/ k = 0 /\ k' \in 1..Chunks /\ t' = 0
             \/ k > 0 /\ t = 0 /\ k' = k
                /\ t' \in {x \in 1..Len(Lines) : x % Chunks = k - 1}
Seen == t > 0
L == Lines[t]
NoPanic == L.ok = 1
=============================================================================
