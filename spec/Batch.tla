-------------------------------- MODULE Batch --------------------------------
(* As Calls, for specifications that use the short names themselves: recorded *)
(* lines, one call or one whole game per line, checked in parallel.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
BatchLines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES line, chunk
Chunks == 64
BatchInit == line = 0 /\ chunk = 0
BatchNext == \/ chunk = 0 /\ chunk' \in 1..Chunks /\ line' = 0
             \/ chunk > 0 /\ line = 0 /\ chunk' = chunk
                /\ line' \in {n \in 1..Len(BatchLines) : n % Chunks = chunk - 1}
O == IF line = 0 THEN [op |-> "none"] ELSE BatchLines[line]
Spec == BatchInit /\ [][BatchNext]_<<line, chunk>>
=============================================================================
