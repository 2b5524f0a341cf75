-------------------------------- MODULE Review --------------------------------
(* The ranking site's judgement of an analysed video: 0 valid, 1 invalid,     *)
(* 3 cannot say.                                                              *)
EXTENDS Integers, Sequences
(* utf-8 *)
Arbiter == <<65, 114, 98, 105, 116, 101, 114>>
Vienna == <<86, 105, 101, 110, 110, 97, 115, 119, 101, 101, 112, 101, 114>>
Meta32 == <<229, 133, 131, 51, 46, 50>>
Meta317 == <<229, 133, 131, 51, 46, 49, 46, 55>>
(* the ban of 2023-04-24, in seconds *)
Ban == <<49, 54, 56, 50, 50, 54, 53, 54, 48, 48>>
IsSeconds(s) == Len(s) >= 10 /\ \A k \in 1..10 : s[k] \in 48..57
(* decimal digits compare like numbers *)
After(s) == \E k \in 1..10 : s[k] > Ban[k] /\ \A j \in 1..(k - 1) : s[j] = Ban[j]
Flat(c) == \A k \in 1..Len(c) : c[k] = c[1]
Verdict(r) ==
    IF r.sw \notin {Arbiter, Vienna, Meta32, Meta317} THEN 1
    ELSE IF r.sw = Vienna /\ ~IsSeconds(r.start) THEN 3
    ELSE IF r.sw = Vienna /\ After(r.start) THEN 1
    ELSE IF r.sw \in {Meta32, Meta317} /\ (Flat(r.check) \/ ~r.fair) THEN 1
    ELSE IF r.n < 10 * r.bbbv THEN 3
    ELSE IF r.won THEN 0 ELSE 1
=============================================================================
