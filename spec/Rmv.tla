-------------------------------- MODULE Rmv ---------------------------------
(* The Viennasweeper video file.                                              *)
(*   "*rmv", 16-bit 1, 4 skipped, 16-bit sizes of the result string and the   *)
(*   version info, 4 skipped, 16-bit sizes of pre-flags and properties,       *)
(*   7 skipped                                                                *)
(*   result string: longer than 35: (size - 32) skipped, three characters     *)
(*     with the 3BV, 16 skipped, 10 bytes time stamp; else size - 3 skipped   *)
(*   version info and two more skipped; 16-bit number of player infos: name,  *)
(*     nick, country, token, each after its length; 4 skipped                 *)
(*   width, height, 16-bit mines, mines as (column, row) from 0               *)
(*   pre-flags when their size is not 0: 16-bit count, (column, row)          *)
(*   1 skipped, no-flag, mode, level - 3, rest of the properties skipped      *)
(*   events: 0 and 4 bytes (time); 1..7 time (24 bit, ms) one byte, x + 12,   *)
(*     y + 56; 9..14 and 18..27 two bytes; 15..17 end                         *)
EXTENDS Bytes, TLC
RmvKinds == <<"mv", "lc", "lr", "rc", "rr", "mc", "mr">>
Wrap(n) == IF n < 0 THEN n + 65536 ELSE n
(* a point outside the board is kept as the corner below and right of it *)
Inside(w, h, x, y) == IF x >= 16 * w \/ y >= 16 * h THEN <<16 * w, 16 * h>> ELSE <<x, y>>
RECURSIVE RmvEvents(_, _, _, _)     \* [ok, ev]
RmvEvents(d, p, w, h) ==
    IF ~Has(d, p, 1) THEN Bad
    ELSE LET c == d[p]
         IN  CASE c = 0 -> RmvEvents(d, p + 5, w, h)
               [] c \in 1..7 ->
                    IF ~Has(d, p, 9) THEN Bad
                    ELSE LET xy == Inside(w, h, Wrap(B16(d, p + 5) - 12), Wrap(B16(d, p + 7) - 56))
                             r == RmvEvents(d, p + 9, w, h)
                         IN  IF r.ok THEN [r EXCEPT !.ev = <<<<RmvKinds[c], B24(d, p + 1), xy[1], xy[2]>>>> \o @] ELSE Bad
               [] c \in (9..14) \cup (18..27) -> RmvEvents(d, p + 3, w, h)
               [] c \in 15..17 -> [ok |-> TRUE, ev |-> <<>>]
               [] OTHER -> Bad
RECURSIVE Infos(_, _, _)             \* k length-prefixed texts from p on: [ok, at, s]
Infos(d, p, k) ==
    IF k = 0 THEN [ok |-> TRUE, at |-> p, s |-> <<>>]
    ELSE IF ~Has(d, p, 1) \/ ~Has(d, p, 1 + d[p]) THEN Bad
    ELSE LET r == Infos(d, p + 1 + d[p], k - 1)
         IN  IF r.ok THEN [r EXCEPT !.s = <<Sub(d, p + 1, d[p])>> \o @] ELSE Bad
Digit3(s) == SelectSeq(s, LAMBDA c : c \in 48..57)

RmvBoard(d, p, props, pre, head) ==     \* from the width on
    IF ~Has(d, p, 4) \/ d[p] = 0 \/ d[p + 1] = 0 THEN Bad
    ELSE LET w == d[p]
             h == d[p + 1]
             n == B16(d, p + 2)
         IN  IF ~Has(d, p + 4, 2 * n) THEN Bad
             ELSE LET col(k) == d[p + 4 + 2 * (k - 1)]
                      row(k) == d[p + 5 + 2 * (k - 1)]
                      q == p + 4 + 2 * n
                      nf == IF pre > 0 /\ Has(d, q, 2) THEN B16(d, q) ELSE 0
                      fl == q + 2
                      r == IF pre > 0 THEN q + 2 + 2 * nf ELSE q
                      mines == {<<row(k) + 1, col(k) + 1>> : k \in 1..n}
                  IN  IF \/ \E k \in 1..n : col(k) >= w \/ row(k) >= h
                         \/ pre > 0 /\ ~Has(d, q, 2)
                         \/ nf > 0 /\ ~Has(d, fl, 2 * nf)
                         \/ ~Has(d, r, 4) \/ d[r + 3] > 252 \/ props < 4
                      THEN Bad
                      ELSE LET e == RmvEvents(d, r + props, w, h)
                               pf == [k \in 1..nf |-> <<"pf", 0, 16 * d[fl + 2 * (k - 1)], 16 * d[fl + 2 * (k - 1) + 1]>>]
                               ev == IF ~e.ok THEN <<>> ELSE IF e.ev = <<>> THEN pf
                                     ELSE pf \o <<[e.ev[1] EXCEPT ![1] = "lc"]>> \o e.ev
                           IN  IF ~e.ok \/ ev = <<>> THEN Bad
                               ELSE head @@ [ok |-> TRUE, vague |-> FALSE, w |-> w, h |-> h, mines |-> n,
                                             nf |-> d[r + 1] = 1, mode |-> d[r + 2], level |-> d[r + 3] + 3,
                                             ev |-> ev, rtime |-> ev[Len(ev)][2],
                                             board |-> Numbered(h, w, LAMBDA i, j : <<i, j>> \in mines)]
RmvDecode(d) ==
    IF ~Has(d, 1, 22) \/ Sub(d, 1, 6) # <<42, 114, 109, 118, 0, 1>> THEN Bad
    ELSE LET rs == B16(d, 11)
             vi == B16(d, 13)
             pre == B16(d, 19)
             props == B16(d, 21)
             long == rs > 35
             p == 23 + 7                     \* the result string
             q == IF long THEN p + rs - 32 ELSE p
             bv == IF long /\ Has(d, q, 3) THEN Digit3(Sub(d, q, 3)) ELSE <<>>
             after == IF long THEN q + 29 ELSE p + rs - 3
             pi == after + vi + 2
         IN  IF \/ ~long /\ rs < 3
                \/ ~long /\ rs > 3 /\ ~Has(d, p, rs - 3)
                \/ long /\ (~Has(d, q, 29) \/ bv = <<>>)
                \/ ~Has(d, pi, 2)
             THEN Bad
             ELSE LET k == IF B16(d, pi) > 4 THEN 4 ELSE B16(d, pi)
                      s == Infos(d, pi + 2, k)
                  IN  IF ~s.ok THEN Bad
                      ELSE RmvBoard(d, s.at + 4, props, pre,
                               [bbbv |-> IF long THEN NumOf(bv) ELSE 0,
                                start |-> IF long THEN Sub(d, q + 19, 10) ELSE <<>>,
                                player |-> IF k > 0 THEN s.s[1] ELSE <<>>,
                                country |-> IF k > 2 THEN s.s[3] ELSE <<>>])
=============================================================================
