-------------------------------- MODULE Evf --------------------------------
(* The native video file: a sequence of bytes.  A file record f has           *)
(*   done official fair   flags                 h w mines pix mode bbbv rtime *)
(*   strs   the eight texts (sequences of non-zero bytes): software, player,  *)
(*          race, uniqueness, start, end, country, device                     *)
(*   bits   the mine bitmap, row by row, as a sequence of 0/1                 *)
(*   ev     the events <<kind, ms, x, y>>       check  <<>> or 32 bytes       *)
EXTENDS Bytes, SequencesExt

Kinds == <<"mv", "lc", "lr", "rc", "rr", "mc", "mr", "pf", "cc">>
KindNo(e) == IF \E k \in 1..9 : Kinds[k] = e THEN CHOOSE k \in 1..9 : Kinds[k] = e ELSE 99
KindOf(n) == IF n \in 1..9 THEN Kinds[n] ELSE "ub"

U8(n) == <<n>>
U16(n) == <<n \div 256, n % 256>>
U24(n) == <<n \div 65536, (n \div 256) % 256, n % 256>>

RECURSIVE BitSum(_, _, _)
BitSum(bits, i, k) ==   \* value of the k-th group of eight bits, zero padded
    IF i = 8 THEN 0
    ELSE LET p == 8 * (k - 1) + i + 1
         IN  (IF p <= Len(bits) THEN bits[p] * (2 ^ (7 - i)) ELSE 0) + BitSum(bits, i + 1, k)
BitmapBytes(bits) == [k \in 1..((Len(bits) + 7) \div 8) |-> BitSum(bits, 0, k)]
MineBits(b) == FlattenSeq([i \in 1..Len(b) |-> [j \in 1..Len(b[i]) |-> IF b[i][j] = -1 THEN 1 ELSE 0]])

EventBytes(x) == <<KindNo(x[1])>> \o U24(x[2]) \o U16(x[3]) \o U16(x[4])
Encode(f, version) ==
    <<version, (IF f.done THEN 128 ELSE 0) + (IF f.official THEN 64 ELSE 0) + (IF f.fair THEN 32 ELSE 0),
      f.h, f.w>> \o U16(f.mines) \o <<f.pix>> \o U16(f.mode) \o U16(f.bbbv) \o U24(f.rtime)
    \o FlattenSeq([k \in 1..8 |-> Append(f.strs[k], 0)])
    \o BitmapBytes(f.bits)
    \o FlattenSeq([k \in 1..Len(f.ev) |-> EventBytes(f.ev[k])])
    \o (IF f.check = <<>> THEN <<255>> ELSE <<0>> \o f.check)

(* ---- reading ---- *)
(* position of the first 0 at or after p, or 0 *)
RECURSIVE ZeroAt(_, _)
ZeroAt(d, p) == IF p > Len(d) THEN 0 ELSE IF d[p] = 0 THEN p ELSE ZeroAt(d, p + 1)
RECURSIVE Strings(_, _, _)
Strings(d, p, k) ==     \* k strings from position p: [ok, at, strs]
    IF k = 0 THEN [ok |-> TRUE, at |-> p, strs |-> <<>>]
    ELSE LET z == ZeroAt(d, p)
         IN  IF z = 0 THEN Bad
             ELSE LET r == Strings(d, z + 1, k - 1)
                  IN  IF r.ok THEN [r EXCEPT !.strs = <<SubSeq(d, p, z - 1)>> \o @] ELSE Bad
(* number of events from position p on, and where they end *)
RECURSIVE EventsEnd(_, _)
EventsEnd(d, p) == IF p > Len(d) THEN 0
                   ELSE IF d[p] \in {0, 255} THEN p
                   ELSE EventsEnd(d, p + 8)
N16(d, p) == d[p] * 256 + d[p + 1]
N24(d, p) == d[p] * 65536 + d[p + 1] * 256 + d[p + 2]
Bit(byte, i) == (byte \div (2 ^ i)) % 2
Decode(d) ==
    IF Len(d) < 14 THEN Bad
    ELSE LET h == d[3]  w == d[4]
             s == Strings(d, 15, 8)
         IN  IF h = 0 \/ w = 0 \/ ~s.ok THEN Bad
             ELSE LET nb == (h * w + 7) \div 8
                      e0 == s.at + nb
                      e1 == EventsEnd(d, e0)
                  IN  IF e1 = 0 THEN Bad
                      ELSE IF d[e1] = 0 /\ Len(d) < e1 + 32 THEN Bad
                      ELSE [ok |-> TRUE, version |-> d[1],
                            done |-> Bit(d[2], 7) = 1, official |-> Bit(d[2], 6) = 1, fair |-> Bit(d[2], 5) = 1,
                            h |-> h, w |-> w, mines |-> N16(d, 5), pix |-> d[7], mode |-> N16(d, 8),
                            bbbv |-> N16(d, 10), rtime |-> N24(d, 12), strs |-> s.strs,
                            bits |-> [k \in 1..(h * w) |-> Bit(d[s.at + (k - 1) \div 8], 7 - ((k - 1) % 8))],
                            ev |-> [k \in 1..((e1 - e0) \div 8) |->
                                      LET p == e0 + 8 * (k - 1)
                                      IN  <<KindOf(d[p]), N24(d, p + 1), N16(d, p + 4), N16(d, p + 6)>>],
                            check |-> IF d[e1] = 0 THEN SubSeq(d, e1 + 1, e1 + 32) ELSE <<>>]
(* every event kind in the file is one the format defines *)
KnownKinds(x) == \A k \in 1..Len(x.ev) : x.ev[k][1] # "ub"
SameFile(f, x) == /\ x.ok
                  /\ \A n \in {"done", "official", "fair", "h", "w", "mines", "pix", "mode", "bbbv", "rtime", "strs",
                               "bits", "ev", "check"} : x[n] = f[n]
=============================================================================
