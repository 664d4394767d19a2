-------------------------------- MODULE MCConfig --------------------------------
(* Design model of configurations: every list of modules, put together module *)
(* by module as a station's firmware does it (the next module starts at the   *)
(* next byte or at the next register), and a faulty variant of each list.     *)
EXTENDS Faults

CONSTANTS Depth,      \* longest list
          Pool        \* "all" supported types or a "few" that differ in shape
VARIABLES mods, lens, \* the modules, and the data lengths of the serial ones
          offs, blocks,
          in, out,    \* bytes in use
          fault       \* what is wrong with the configuration
vars == <<mods, lens, offs, blocks, in, out, fault>>

Types0 == IF Pool = "all" THEN Supported
          ELSE {"UR20_4DI_P", "UR20_4DO_P", "UR20_16DO_P", "UR20_4AO_UI_16", "UR20_8AI_I_16_DIAG_HD",
                FCNT, COM, SIL}
\* a block in which every range is the first one
Block(t, len) == [k \in 1..RegCount(t) |-> IF t = COM /\ k = 1 /\ len = 16 THEN 1 ELSE 0]

Init == mods = <<>> /\ lens = <<>> /\ offs = <<>> /\ blocks = <<>> /\ in = 0 /\ out = 0 /\ fault = "none"

At(used, whole) == IF whole THEN used + (used % 2) ELSE used
Add(t, len, wi, wo) ==
  LET ni == InBytes(t, len)  no == OutBytes(t, len)
      ai == At(in, wi)  ao == At(out, wo) IN
  /\ Len(mods) < Depth /\ fault = "none"
  /\ (ni = 0 \/ in % 2 = 0) => ~wi       \* otherwise the choice makes no difference
  /\ (no = 0 \/ out % 2 = 0) => ~wo
  /\ mods' = Append(mods, t) /\ lens' = Append(lens, len) /\ blocks' = Append(blocks, Block(t, len))
  /\ offs' = offs \o <<IF no = 0 THEN NoOffset ELSE 32768 + 8 * ao, IF ni = 0 THEN NoOffset ELSE 8 * ai>>
  /\ in' = (IF ni = 0 THEN in ELSE ai + ni) /\ out' = (IF no = 0 THEN out ELSE ao + no)
  /\ UNCHANGED fault
Break(what) ==
  /\ fault = "none" /\ mods # <<>> /\ fault' = what
  /\ CASE what = "few blocks" -> blocks' = Take(blocks, Len(blocks) - 1) /\ UNCHANGED offs
       [] what = "many blocks" -> blocks' = Append(blocks, <<>>) /\ UNCHANGED offs
       [] what = "few offsets" -> offs' = Take(offs, Len(offs) - 1) /\ UNCHANGED blocks
       [] what = "many offsets" -> offs' = Append(offs, NoOffset) /\ UNCHANGED blocks
       [] what = "short block" -> /\ blocks[Len(blocks)] # <<>>
                                  /\ blocks' = [blocks EXCEPT ![Len(blocks)] = Take(@, Len(@) - 1)]
                                  /\ UNCHANGED offs
       [] what = "long block" -> /\ blocks' = [blocks EXCEPT ![Len(blocks)] = Append(@, 65535)]
                                 /\ UNCHANGED offs
       [] what = "value" -> /\ blocks[1] # <<>> /\ blocks' = [blocks EXCEPT ![1][1] = 256]
                            /\ UNCHANGED offs
  /\ UNCHANGED <<mods, lens, in, out>>
Next == \/ \E t \in Types0 : \E len \in (IF t = COM THEN {8, 16} ELSE {0}) : \E wi, wo \in BOOLEAN : Add(t, len, wi, wo)
        \/ \E w \in {"few blocks", "many blocks", "few offsets", "many offsets", "short block", "long block", "value"} : Break(w)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Faults0 == NewFaults(mods, offs, blocks)
Ok == NewOk(mods, offs, blocks)
\* C11, C24: refused exactly if there is a cause, and the cause is the one made
Causes ==
  /\ Ok <=> Faults0 = {}
  /\ CASE fault = "none" -> Ok
       [] fault \in {"few blocks", "many blocks"} -> Faults0 = {"BufferLength"}
       [] fault \in {"few offsets", "many offsets"} -> Faults0 = {"ModuleOffset"}
       [] fault = "short block" -> Faults0 = {"BufferLength"}
       [] fault = "long block" -> Faults0 \subseteq {"BufferLength"}
       [] fault = "value" -> Faults0 = {"ChannelParameter"}

S == NewState(mods, offs, blocks)
Used(off, base, n) == IF off = NoOffset THEN {} ELSE ByteOf(off, base)..(ByteOf(off, base) + n - 1)
\* C08, C19: such a list is regular, can be assembled, and no two modules share a byte
Layout0 ==
  (fault = "none") =>
    /\ Regular(S) /\ CanAssemble(Spans(S)) /\ Packed(Spans(S))
    /\ ImageLen(Spans(S)) = (out + 1) \div 2
    /\ \A i, j \in DOMAIN mods : i < j =>
         /\ Used(OutOff(offs, i), OutBase, NOut(S, i)) \cap Used(OutOff(offs, j), OutBase, NOut(S, j)) = {}
         /\ Used(InOff(offs, i), InBase, NIn(S, i)) \cap Used(InOff(offs, j), InBase, NIn(S, j)) = {}

\* two different pairs of images, valid for every list
Pattern(words, k) == [w \in 1..words |-> ((w * 7919) + (k * 31013)) % 65536]
\* (a serial module's announced length must be possible)
Calm(words, base, of(_), num(_), k) ==
  LET sb == {ByteOf(of(i), base) + 1 : i \in {j \in DOMAIN mods : mods[j] = COM /\ of(j) # NoOffset}}
      p == Pattern(words, k)
      b(x) == IF x \in sb THEN 3 ELSE ImgByte(p, x)
  IN TLCEval([w \in 1..words |-> b(2 * w - 2) + 256 * b(2 * w - 1)])
OOf(i) == OutOff(offs, i)
IOf(i) == InOff(offs, i)
InImg(k) == Calm((in + 1) \div 2, InBase, IOf, LAMBDA i : NIn(S, i), k)
OutImg(k) == Calm((out + 1) \div 2, OutBase, OOf, LAMBDA i : NOut(S, i), k)
\* C08, C23: each module's part of the returned image is what the module alone
\* makes of its own bytes; nothing else is set; too short an image is refused
Assembled ==
  (fault = "none" /\ mods # <<>>) => \A k \in {1, 2} :
    LET i0 == InImg(k)  o0 == OutImg(k) IN
    /\ InOk(S, i0) /\ OutOk(S, o0)
    /\ ValuesOk(S, o0) =>
         LET n == NextImage(S, i0, o0) IN
         /\ Len(n) = Len(o0)
         /\ \A i \in DOMAIN mods : NOut(S, i) > 0 => OutSlice(S, i, n) = NextBytes(S, i, i0, o0)
         /\ \A b \in 0..(2 * Len(n) - 1) : Owner(S, b) = 0 => ImgByte(n, b) = 0
    /\ in > 0 => ~InOk(S, Take(i0, Len(i0) - 1))
    /\ out > 0 => ~OutOk(S, Take(o0, Len(o0) - 1))
    /\ InFaults(S, i0) = {} /\ OutFaults(S, o0) = {}
    /\ in > 0 => InFaults(S, Take(i0, Len(i0) - 1)) = {"BufferLength"}
    /\ out > 0 => OutFaults(S, Take(o0, Len(o0) - 1)) = {"BufferLength"}
    /\ Class(S, i0, o0) = "ok" <=> CycleFaults(S, i0, o0) = {}
=============================================================================
