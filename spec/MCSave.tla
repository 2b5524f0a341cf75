-------------------------------- MODULE MCSave --------------------------------
(* Saving into a directory: any files to begin with, any sequence of saves.   *)
EXTENDS Video, TLC
CONSTANTS MaxNumber, Bases
VARIABLES files, n
vars == <<files, n>>
Pool == {Candidate(b, k) : b \in Bases, k \in 1..MaxNumber}
Init == files \in UNION {[D -> {0}] : D \in SUBSET Pool} /\ n = 0
Next == n < 3 /\ n' = n + 1 /\ \E b \in Bases : files' = Save(files, b, n + 1)
Spec == Init /\ [][Next]_vars
(* nothing that is there is touched, one file is added with the data given,   *)
(* and every smaller number was taken                                         *)
Kept == [][/\ \A x \in DOMAIN files : files'[x] = files[x]
           /\ Cardinality(DOMAIN files') = Cardinality(DOMAIN files) + 1
           /\ \E b \in Bases, k \in 1..(MaxNumber + 3) :
                 /\ Candidate(b, k) \in DOMAIN files' \ DOMAIN files /\ files'[Candidate(b, k)] = n + 1
                 /\ \A m \in 1..(k - 1) : Candidate(b, m) \in DOMAIN files]_vars
=============================================================================
