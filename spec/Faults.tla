-------------------------------- MODULE Faults --------------------------------
(* Which error names which cause.  A call that is refused may name any of the *)
(* causes that are present, and nothing else.                                 *)
EXTENDS Coupler

K(c, name) == IF c THEN {name} ELSE {}

\* parameter blocks
BlockFaults(t, b) ==
  LET L == Layout[t]
      kinds == [k \in 1..RegCount(t) |->
                  IF k <= Len(L.m) THEN L.m[k] ELSE L.c[((k - Len(L.m) - 1) % Len(L.c)) + 1]]
      there == {k \in DOMAIN kinds : k <= Len(b)}
  IN K(~LengthOk(t, b), "BufferLength")
     \cup K(\E k \in there : ~Allowed(kinds[k], b[k]), "ChannelParameter")
NewFaults(mods, offs, blocks) ==
  K(Len(mods) # Len(blocks), "BufferLength")
  \cup K(Len(offs) # 2 * Len(mods), "ModuleOffset")
  \cup UNION {BlockFaults(mods[i], blocks[i]) : i \in DOMAIN mods \cap DOMAIN blocks}

\* images
SliceFaults(t, img, off, base, n) ==
  IF ByteOf(off, base) < 0 THEN {"ModuleOffset"}
  ELSE IF ~Aligned(off) THEN {"ModuleOffset"} \cup K(ByteOf(off, base) + n + 2 > 2 * Len(img), "BufferLength")
  ELSE IF ~Fits(img, off, base, n) THEN {"BufferLength"}
  ELSE K(~DecodeOk(t, SliceBytes(img, off, base, n)), "BufferLength")
InFaults(s, img) ==
  UNION {SliceFaults(s.mods[i], img, InOff(s.off, i), InBase, NIn(s, i)) : i \in {k \in DOMAIN s.mods : HasIn(s, k)}}
OutFaults(s, img) ==
  UNION {SliceFaults(s.mods[i], img, OutOff(s.off, i), OutBase, NOut(s, i)) : i \in {k \in DOMAIN s.mods : HasOut(s, k)}}

\* values for a module with output data
ValueFaults(t, cf, vs) ==
  K(Len(vs) # Chan(t) \/ \E k \in DOMAIN vs : ~ValueOk(t, vs[k]), "ChannelValue")
  \cup (IF t = COM /\ Len(vs) = 1 /\ ValueOk(t, vs[1])
        THEN K(vs[1].co.tx > 3 \/ vs[1].co.ra > 3, "SequenceNumber")
             \cup (IF Len(vs[1].co.d) > cf.len - 2 THEN {"DataLength", "BufferLength"} ELSE {})
        ELSE {})

CycleFaults(s, in, out) ==
  LET f == InFaults(s, in) \cup OutFaults(s, out) IN
  IF f # {} THEN f
  ELSE K(~CanAssemble(Spans(s)), "ModuleOffset")
       \cup UNION {ValueFaults(s.mods[i], s.conf[i], NextValues(s, i, out))
                   : i \in {k \in DOMAIN s.mods : HasOut(s, k) /\ s.mods[k] # COM}}

\* a refused call names a cause that is present
Named(r, faults) == r \in faults
=============================================================================
