-------------------------------- MODULE Image --------------------------------
(* The packed process images: register words in which every module owns the  *)
(* bytes at its own offset.  Offsets are bit addresses (16 * register + bit); *)
(* 65535 means that the module has no data in that direction.                *)
EXTENDS Words
LOCAL INSTANCE TLC

InBase == 0
OutBase == 2048           \* register 0x0800
NoOffset == 65535

Aligned(off) == off % 8 = 0
ByteOf(off, base) == off \div 8 - 2 * base      \* byte index, from 0

\* the n bytes at off exist in the image
Fits(img, off, base, n) ==
  /\ Aligned(off) /\ ByteOf(off, base) >= 0
  /\ ByteOf(off, base) + n <= 2 * Len(img)

ImgByte(img, k) == IF k % 2 = 0 THEN Lo(img[k \div 2 + 1]) ELSE Hi(img[k \div 2 + 1])
SliceBytes(img, off, base, n) ==
  TLCEval([k \in 1..n |-> ImgByte(img, ByteOf(off, base) + k - 1)])

\* --- the output layout ----------------------------------------------------
\* spans: sequence of [off, n] of the modules with output data, in module order.
\* Every module starts where the previous one ended, or at the next register.
RECURSIVE GapFree(_, _, _)
GapFree(spans, i, pos) ==
  IF i > Len(spans) THEN TRUE
  ELSE LET b == ByteOf(spans[i].off, OutBase) IN
       /\ Aligned(spans[i].off)
       /\ b = pos \/ (pos % 2 = 1 /\ b = pos + 1)
       /\ GapFree(spans, i + 1, b + spans[i].n)
Packed(spans) == GapFree(spans, 1, 0)

\* length of the returned image in words
ImageLen(spans) ==
  IF spans = <<>> THEN 0
  ELSE LET l == spans[Len(spans)] IN (ByteOf(l.off, OutBase) + l.n + 1) \div 2

\* An output layout that can never be assembled: a module's first register is
\* not the one that comes next.
RECURSIVE Appendable(_, _, _)
Appendable(spans, i, words) ==
  IF i > Len(spans) THEN TRUE
  ELSE LET b == ByteOf(spans[i].off, OutBase) IN
       /\ Aligned(spans[i].off) /\ b >= 0
       /\ IF b % 2 = 0 THEN b \div 2 = words ELSE (b + 1) \div 2 = words
       /\ Appendable(spans, i + 1, IF b % 2 = 0 THEN words + (spans[i].n + 1) \div 2
                                   ELSE words + spans[i].n \div 2)
CanAssemble(spans) == Appendable(spans, 1, 0)
=============================================================================
