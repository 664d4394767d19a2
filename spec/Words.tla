-------------------------------- MODULE Words --------------------------------
(* Bytes, 16 bit words and bits.  TLC integers are 32 bit, therefore 32 bit  *)
(* quantities are kept as pairs <<high word, low word>>.                     *)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>

Bit(w, i) == (w \div P2[i + 1]) % 2 = 1
Lo(w) == w % 256
Hi(w) == w \div 256
I16(w) == IF w >= 32768 THEN w - 65536 ELSE w
U16(n) == IF n < 0 THEN n + 65536 ELSE n

\* The word with exactly the bits of the set S.
RECURSIVE SumBits(_, _)
SumBits(bs, i) ==      \* bs: sequence of booleans, bs[k] is bit k-1
  IF i > Len(bs) THEN 0 ELSE (IF bs[i] THEN P2[i] ELSE 0) + SumBits(bs, i + 1)
WordOfBits(bs) == SumBits(bs, 1)

\* (TLCEval: TLC otherwise evaluates an element anew at every use.)
BytesOf(ws) == TLCEval([k \in 1..(2 * Len(ws)) |->
                  IF k % 2 = 1 THEN Lo(ws[(k + 1) \div 2]) ELSE Hi(ws[k \div 2])])
ByteOr0(bs, k) == IF k <= Len(bs) THEN bs[k] ELSE 0
WordsOf(bs) == TLCEval([k \in 1..((Len(bs) + 1) \div 2) |->
                  bs[2 * k - 1] + 256 * ByteOr0(bs, 2 * k)])

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(n) == IF n < 0 THEN -n ELSE n
RangeOf(s) == {s[i] : i \in DOMAIN s}
=============================================================================
