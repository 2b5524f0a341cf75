-------------------------------- MODULE Avf ---------------------------------
(* The Arbiter video file, as far as it is read:                              *)
(*   1 byte, 4 bytes skipped, level; level 6: columns-1, rows-1, mines (16)   *)
(*   mines as (row, column) counted from 1                                    *)
(*   text: ... "[" 0..3 "|" start "|" end "|" ... "|B" 3BV "T" time "]"       *)
(*   events of 8 bytes  kind, x high, sec low, x low, 1/100 s, y high,        *)
(*     sec high, y low; the first one is found by its time, the list ends     *)
(*     with time zero                                                         *)
(*   text: ... "Skin:" ... CR player CR                                       *)
EXTENDS Bytes, TLC
AvfKinds == (1 :> "mv") @@ (3 :> "lc") @@ (5 :> "lr") @@ (9 :> "rc") @@ (17 :> "rr") @@ (33 :> "mc") @@ (65 :> "mr")
            @@ (145 :> "rr") @@ (193 :> "mr") @@ (11 :> "sc") @@ (21 :> "lr")

RECURSIVE Mark(_, _)        \* "[" digit "|": position of the "|"
Mark(d, p) == IF p + 2 > Len(d) THEN 0
              ELSE IF d[p] = 91 /\ d[p + 1] \in 48..51 /\ d[p + 2] = 124 THEN p + 2 ELSE Mark(d, p + 1)
RECURSIVE Bar(_, _)         \* "|B" with the "|" at p-1 or later: position of the "B"
Bar(d, p) == IF p > Len(d) THEN 0 ELSE IF d[p - 1] = 124 /\ d[p] = 66 THEN p ELSE Bar(d, p + 1)
(* the first event: a time byte 1 after a byte 0 or 1 (nothing before p counts) *)
RECURSIVE First(_, _, _)
First(d, p, k) == IF k > Len(d) THEN 0
                  ELSE IF d[k] = 1 /\ (k = p \/ d[k - 1] <= 1) THEN k ELSE First(d, p, k + 1)
RECURSIVE EventList(_, _)   \* whole events from position p on: [ok, ev, at]
EventList(d, p) ==
    IF ~Has(d, p, 8) THEN Bad
    ELSE IF d[p + 2] = 0 /\ d[p + 6] = 0 THEN [ok |-> TRUE, ev |-> <<>>, at |-> p + 8]
    ELSE IF d[p] \notin DOMAIN AvfKinds THEN Bad
    ELSE LET r == EventList(d, p + 8)
         IN  IF r.ok THEN [r EXCEPT !.ev = <<Sub(d, p, 8)>> \o @] ELSE Bad
AvfEvent(e) == <<AvfKinds[e[1]], (e[7] * 256 + e[3] - 1) * 1000 + e[5] * 10, e[2] * 256 + e[4], e[6] * 256 + e[8]>>
(* after "S" .. "k" .. "i" .. "n" .. ":" .. CR, each found after the one before *)
RECURSIVE Skin(_, _, _)
Skin(d, p, cs) == IF cs = <<>> THEN p
                  ELSE LET q == Find(d, p, cs[1]) IN IF q = 0 THEN 0 ELSE Skin(d, q + 1, SubSeq(cs, 2, Len(cs)))

(* numbers in the text; "vague": a form not laid down here *)
Count(s) == IF s = <<>> THEN "bad"
            ELSE LET u == IF s[1] = 43 THEN SubSeq(s, 2, Len(s)) ELSE s
                 IN  IF ~IsDigits(u) THEN "bad" ELSE IF Len(u) > 9 THEN "vague" ELSE "num"
CountOf(s) == NumOf(IF s[1] = 43 THEN SubSeq(s, 2, Len(s)) ELSE s)
(* a decimal number: sign, digits with at most one point, exponent; or a word  *)
Unsigned(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN SubSeq(s, 2, Len(s)) ELSE s
Lower(s) == [k \in 1..Len(s) |-> IF s[k] \in 65..90 THEN s[k] + 32 ELSE s[k]]
Words == {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>, <<110, 97, 110>>}
IsMantissa(s) == /\ \E k \in 1..Len(s) : s[k] \in 48..57
                 /\ \A k \in 1..Len(s) : s[k] \in (48..57) \cup {44, 46}
                 /\ \A j, k \in 1..Len(s) : (s[j] \in {44, 46} /\ s[k] \in {44, 46}) => j = k
IsFloat(s) ==
    LET u == Unsigned(s)
        x == {k \in 1..Len(u) : u[k] \in {69, 101}}
    IN  \/ Lower(u) \in Words
        \/ x = {} /\ IsMantissa(u)
        \/ \E k \in x : IsMantissa(SubSeq(u, 1, k - 1)) /\ IsDigits(Unsigned(SubSeq(u, k + 1, Len(u))))
Point(s) == IF \E k \in 1..Len(s) : s[k] \in {44, 46} THEN CHOOSE k \in 1..Len(s) : s[k] \in {44, 46} /\ \A j \in 1..(k - 1) : s[j] \notin {44, 46} ELSE 0
Secs(s) == IF ~IsFloat(s) THEN "bad"
           ELSE IF IsDigits(s) /\ Len(s) <= 5 THEN "num"
           ELSE LET k == Point(s)
                IN  IF k > 1 /\ k <= 6 /\ IsDigits(SubSeq(s, 1, k - 1)) /\ IsDigits(SubSeq(s, k + 1, Len(s))) /\ Len(s) - k <= 3
                    THEN "num" ELSE "vague"
SecsOf(s) == LET k == Point(s)     \* in ms
             IN  IF k = 0 THEN NumOf(s) * 1000
                 ELSE NumOf(SubSeq(s, 1, k - 1)) * 1000
                      + NumOf(SubSeq(s, k + 1, Len(s))) * (CASE Len(s) - k = 1 -> 100 [] Len(s) - k = 2 -> 10 [] OTHER -> 1)

AvfTail(d, h, w, mines, level, p) ==      \* everything after the mines, from p on
    LET m == Mark(d, p)
        a == IF m = 0 THEN 0 ELSE Find(d, m + 1, 124)
        b == IF a = 0 THEN 0 ELSE Find(d, a + 1, 124)
        c == IF b = 0 THEN 0 ELSE Bar(d, b + 1)
        t == IF c = 0 THEN 0 ELSE Find(d, c + 1, 84)
        e == IF t = 0 THEN 0 ELSE Find(d, t + 1, 93)
    IN  IF e = 0 THEN Bad
        ELSE LET bv == SubSeq(d, c + 1, t - 1)
                 rt == SubSeq(d, t + 1, e - 1)
                 k == First(d, e + 1, e + 1)
                 lead(j) == IF j >= e + 1 THEN d[j] ELSE 0
             IN  IF Count(bv) = "bad" \/ Secs(rt) = "bad" \/ k = 0 \/ ~Has(d, k, 6) THEN Bad
                 ELSE LET e1 == <<lead(k - 2), lead(k - 1)>> \o Sub(d, k, 6)
                          r == IF e1[1] \notin DOMAIN AvfKinds THEN Bad ELSE EventList(d, k + 6)
                          s == IF r.ok THEN Skin(d, r.at, <<83, 107, 105, 110, 58, 13>>) ELSE 0
                          z == IF s = 0 THEN 0 ELSE Find(d, s, 13)
                      IN  IF ~r.ok \/ z = 0 THEN Bad
                          ELSE [ok |-> TRUE, vague |-> Count(bv) = "vague" \/ Secs(rt) = "vague", long |-> Count(bv) = "vague",
                                h |-> h, w |-> w, level |-> level,
                                bbbv |-> IF Count(bv) = "num" THEN CountOf(bv) ELSE 0,
                                rtime |-> IF Secs(rt) = "num" THEN SecsOf(rt) - 1000 ELSE 0,
                                start |-> SubSeq(d, m + 1, a - 1), end |-> SubSeq(d, a + 1, b - 1),
                                player |-> SubSeq(d, s, z - 1),
                                ev |-> [n \in 1..(Len(r.ev) + 1) |-> AvfEvent(IF n = 1 THEN e1 ELSE r.ev[n - 1])]]
AvfDecode(d) ==
    IF ~Has(d, 6, 1) \/ d[6] \notin 3..6 \/ (d[6] = 6 /\ ~Has(d, 7, 4)) THEN Bad
    ELSE LET level == d[6]
             w == CASE level = 3 -> 8 [] level = 4 -> 16 [] level = 5 -> 30 [] OTHER -> d[7] + 1
             h == CASE level = 3 -> 8 [] level = 4 -> 16 [] level = 5 -> 16 [] OTHER -> d[8] + 1
             n == CASE level = 3 -> 10 [] level = 4 -> 40 [] level = 5 -> 99 [] OTHER -> B16(d, 9)
             p == IF level = 6 THEN 11 ELSE 7
         IN  IF n > 0 /\ ~Has(d, p, 2 * n) THEN Bad
             ELSE LET row(k) == d[p + 2 * (k - 1)]
                      col(k) == d[p + 2 * (k - 1) + 1]
                      mines == {<<row(k), col(k)>> : k \in 1..n}
                      r == AvfTail(d, h, w, mines, level, p + 2 * n)
                  IN  IF (\E k \in 1..n : row(k) \notin 1..h \/ col(k) \notin 1..w) \/ ~r.ok THEN Bad
                      ELSE r @@ [mines |-> n, board |-> Numbered(h, w, LAMBDA i, j : <<i, j>> \in mines)]
=============================================================================
