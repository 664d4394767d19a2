----------------------------- MODULE TraceTables -----------------------------
(* Trace specification of recorded function tables: every event is a batch of *)
(* evaluations of a stateless part of the library (decoding, encoding,        *)
(* parameters, identification, addresses, telegrams), judged on its own       *)
(* against the operators of the specification.                               *)
EXTENDS Faults, TraceBase
CONSTANT Checks
VARIABLES l, bad
ev == Trace[l]

NoPanic(e) == If(e.r # "panic", "panic")

-----------------------------------------------------------------------------
(* Parameter blocks (C11, C12).                                              *)
Shown1(kind, w) ==
  CASE kind.k = "enum" -> Name(kind, w)
    [] kind.k = "i16" -> ToString(I16(w))
    [] OTHER -> ToString(w)
NoSubst(ks) == SelectSeq(ks, LAMBDA k : k.k # "subst")
ModShown(t, b) == [j \in 1..Len(Layout[t].m) |-> Shown1(Layout[t].m[j], ModReg(t, b, j))]
\* positions of the parameters that are shown by name
ShownPos(t) == SelectSeq([j \in 1..Len(Layout[t].c) |-> j], LAMBDA j : Layout[t].c[j].k # "subst")
ChShown(t, b, i) ==
  [j \in 1..Len(ShownPos(t)) |->
     Shown1(Layout[t].c[ShownPos(t)[j]], ChReg(t, b, i, ShownPos(t)[j]))]
SubPos(t) == CHOOSE j \in DOMAIN Layout[t].c : Layout[t].c[j].k = "subst"
SubOk(t, b, i, v) ==
  LET cf == Conf(t, b).ch[i] IN
  cf.rg = "Disabled" \/ DecMatches(v, ChReg(t, b, i, SubPos(t)), cf.rg, cf.fm)

Refused(r) == r \notin {"ok", "panic"}
ParEv(e) ==
  LET v == Verdict(e.t, e.b) IN
  NoPanic(e) \cup When(Refused(e.r), If(Named(e.r, BlockFaults(e.t, e.b)), "err.par")) \cup
  (CASE v = "length" -> If(e.r \notin {"ok", "panic"}, "par.length")
     [] v = "param" -> If(e.r = "ChannelParameter", "par.range")
     [] OTHER ->
        If(e.r = "ok", "par.refused")
        \cup When(e.r = "ok",
           If(e.mp = ModShown(e.t, e.b), "par.value")
           \cup If(Len(e.cp) = Layout[e.t].n /\
                   \A i \in 1..Layout[e.t].n : e.cp[i] = ChShown(e.t, e.b, i), "par.value")
           \cup When(e.t \in AOs,
                 If(Len(e.sub) = 4 /\ \A i \in 1..4 : SubOk(e.t, e.b, i, e.sub[i]), "par.value"))))

\* One register of a block takes many values, runs of equal results.
KindOf(t, j) ==
  IF j <= Len(Layout[t].m) THEN Layout[t].m[j]
  ELSE Layout[t].c[((j - Len(Layout[t].m) - 1) % Len(Layout[t].c)) + 1]
RunOk(kind, r) ==      \* r: <<low, high, tag, first number>>
  CASE kind.k = "enum" ->
         IF r[3] = "ChannelParameter" THEN r[1] >= Len(kind.names)
         ELSE r[2] < Len(kind.names) /\ \A w \in r[1]..r[2] : Name(kind, w) = r[3]
    [] kind.k = "i16" ->
         r[3] = "num" /\ r[4] = I16(r[1]) /\ (r[2] < 32768 \/ r[1] >= 32768)
    [] kind.k = "char" ->
         IF r[3] = "ChannelParameter" THEN r[1] > 255
         ELSE r[3] = "num" /\ r[4] = r[1] /\ r[2] <= 255
    [] OTHER -> r[3] = "sub"
Scan(e) ==
  LET kind == KindOf(e.t, e.j)  n == Len(e.runs) IN
  If(Verdict(e.t, e.b) = "ok", "driver")
  \cup If(~e.full \/ (e.runs[1][1] = 0 /\ e.runs[n][2] = 65535
                     /\ \A k \in 1..(n - 1) : e.runs[k + 1][1] = e.runs[k][2] + 1), "driver")
  \cup If(\A k \in 1..n : e.runs[k][3] # "panic", "panic")
  \cup If(\A k \in 1..n : e.runs[k][3] = "panic" \/ RunOk(kind, e.runs[k]), "scan.value")
  \* all other parameters keep the values they have in block b
  \cup If(e.same, "scan.other")

Count(e) == NoPanic(e) \cup If(e.r # "ok" \/ e.n = RegCount(e.t), "pc")

-----------------------------------------------------------------------------
(* Analog values (C13, C15, C07).                                            *)
Odd(e, k) == \E i \in DOMAIN e.odd : e.odd[i][1] <= k /\ k <= e.odd[i][2]
OddTag(e, k) == e.odd[CHOOSE i \in DOMAIN e.odd : e.odd[i][1] <= k /\ k <= e.odd[i][2]][3]
\* e.v[k]: value of raw word e.lo + k - 1, scaled as Phys asks for
AnalogTable(e) ==
  IF e.rg = "Disabled" THEN
    If(\A k \in DOMAIN e.v : Odd(e, k) /\ OddTag(e, k) = "disabled", "ai.value")
  ELSE
    If(Phys(0, e.rg, e.fm).s = e.s, "driver")
    \cup If(\A k \in DOMAIN e.v :
         LET raw == (e.lo + k - 1) % 65536 IN
         IF e.rg \in TCTypes /\ raw = 32767 THEN Odd(e, k) /\ OddTag(e, k) = "none"
         ELSE /\ e.odd = <<>> \/ ~Odd(e, k)
              /\ LET p == Phys(raw, e.rg, e.fm) IN Abs(e.v[k] - p.v) <= p.t, "ai.value")
\* e.x: values in ascending order (1e-6 units), e.raw: their encoding
AnalogDrive(e) ==
  If(\A k \in DOMAIN e.x :
       NearestOk([f |-> "n", d |-> <<0, e.x[k], 0>>], e.raw[k], e.rg, e.fm), "enc.nearest")
  \cup If(\A k \in 1..(Len(e.x) - 1) : I16(e.raw[k]) <= I16(e.raw[k + 1]), "enc.monotonic")
  \cup If(e.r = "ok", "enc.result")
  \* a channel written as disabled
  \cup If(e.dis = 0, "enc.disabled")
\* e.w: raw words standing in the image, e.o: after one cycle, e.p: after a
\* second cycle on the first one's output
Keep(e) ==
  LET want(w) == IF e.rg = "Disabled" THEN 0 ELSE w IN
  If(Len(e.o) = Len(e.w) /\ \A k \in DOMAIN e.w : e.o[k] = want(e.w[k]), "keep")
  \cup If(Len(e.p) = Len(e.w) /\ \A k \in DOMAIN e.w : e.p[k] = want(e.w[k]), "keep.twice")

-----------------------------------------------------------------------------
(* Digital values (C14), packed into an integer per word.                    *)
BitsInTable(e) ==
  If(\A k \in DOMAIN e.v : e.v[k] = (e.lo + k - 1) % (IF Chan(e.t) = 16 THEN 65536 ELSE P2[Chan(e.t) + 1]),
     "bits.in")
BitsOutTable(e) == If(\A k \in DOMAIN e.v : e.v[k] = e.lo + k - 1, "bits.out")
SilTable(e) ==
  If(\A k \in DOMAIN e.v :
       e.v[k] = WordOfBits(SilIn(LET w == e.lo + k - 1 IN <<Lo(w), Hi(w), 0, 0>>).si), "sil")

-----------------------------------------------------------------------------
(* Single rows of any module type (C10, C13, C14, C16).                      *)
ConfOf(e) == Conf(e.t, e.b)
LenOf(e) == IF e.t = COM THEN ConfOf(e).len ELSE 0
Kind(t) == IF t = COM THEN "com" ELSE IF t \in AIs \cup AOs THEN "analog" ELSE "digital"
Dec(e) ==
  LET bs == BytesOf(e.w)
      n == IF e.dir = "in" THEN InBytes(e.t, LenOf(e)) ELSE OutBytes(e.t, LenOf(e))
      need == (n + 1) \div 2
      exp == IF e.dir = "in" THEN DecodeIn(e.t, ConfOf(e), bs) ELSE DecodeOut(e.t, ConfOf(e), bs)
  IN NoPanic(e) \cup
     IF n = 0 THEN
       \* no data in this direction
       If(e.w = <<>> \/ e.r \notin {"ok", "panic"}, "dec.surplus")
       \cup When(Refused(e.r), If(e.r = "BufferLength", "err.dec"))
       \cup When(e.w = <<>>, If(e.r = "ok", "dec.refused")
            \cup When(e.r = "ok", If(e.v = [k \in 1..Chan(e.t) |-> None], "dec.empty")))
     ELSE IF e.t = COM THEN
       IF TelegramOk(bs)
       THEN If(e.r = "ok", "dec.refused") \cup When(e.r = "ok", If(e.v = exp, "dec.com"))
       ELSE If(e.r \notin {"ok", "panic"}, "dec.telegram")
            \cup When(Refused(e.r), If(e.r = "BufferLength", "err.dec"))
     ELSE IF Len(e.w) < need THEN If(e.r \notin {"ok", "panic"}, "dec.short")
            \cup When(Refused(e.r), If(e.r = "BufferLength", "err.dec"))
     ELSE When(Len(e.w) = need, If(e.r = "ok", "dec.refused"))
          \cup When(e.r = "ok",
               If(Len(e.v) = Len(exp), "dec.count")
               \cup If(Len(e.v) = Len(exp) => \A k \in DOMAIN exp : Matches(exp[k], e.v[k]),
                       "dec." \o Kind(e.t)))
Enc(e) ==
  LET n == OutBytes(e.t, LenOf(e))
      bs == BytesOf(e.o)
  IN NoPanic(e) \cup
     When(Refused(e.r), If(Named(e.r, IF n = 0 THEN {"ChannelValue"} ELSE ValueFaults(e.t, ConfOf(e), e.vs)), "err.enc")) \cup
     IF n = 0 THEN
       If(Len(e.vs) \in {0, Chan(e.t)} \/ e.r \notin {"ok", "panic"}, "row.surplus")
       \cup If(e.r # "ok" \/ e.o = <<>>, "row.len")
       \cup If((\E k \in DOMAIN e.vs : e.vs[k] # None) \/ Len(e.vs) \notin {0, Chan(e.t)} \/ e.r = "ok", "row.refused")
     ELSE IF ~EncodeOk(e.t, ConfOf(e), e.vs) THEN If(e.r \notin {"ok", "panic"}, "row.accepted")
     ELSE If(e.r = "ok", "row.refused")
          \cup When(e.r = "ok",
               If(Len(e.o) = (n + 1) \div 2, "row.len")
               \cup When(Len(e.o) = (n + 1) \div 2,
                    If(BadChannels(e.t, ConfOf(e), e.vs, IF e.t = COM THEN SubSeq(bs, 1, n) ELSE bs) = {},
                       "row." \o Kind(e.t))
                    \cup If(\A k \in (n + 1)..Len(bs) : bs[k] = 0, "row.unused")))

\* The frequency of a counter input: a edges (times a power of two, which v is
\* divided by) in p/q seconds; v is scaled by 1000.
Hertz(e) ==
  NoPanic(e) \cup If(e.absent, "hertz.absent")
  \cup 
     LET x == 1000 * e.a * e.q IN
     If(e.v >= 0 /\ e.v <= 2 * (x \div e.p) + 2 /\ Abs(e.v * e.p - x) <= e.p + x \div 1000000, "hertz")

\* a edges in t steps of 125 ns, in Hz
HertzShort(e) ==
  LET x == 8000000 * e.a IN
  NoPanic(e) \cup If(e.v >= 0 /\ e.v <= 2 * (x \div e.t) + 2 /\ Abs(e.v * e.t - x) <= e.t + x \div 1000000, "hertz")

-----------------------------------------------------------------------------
(* Modules with their default parameters (C20).                              *)
ByDefault(e) == ("b" :> DefaultBlock[e.t]) @@ e
Zero == [f |-> "n", d |-> <<0, 0, 0>>]
Def(e) ==
  LET b == DefaultBlock[e.t] IN
  NoPanic(e) \cup If(e.r = "ok", "def")
  \cup When(e.r = "ok",
       If(e.mp = ModShown(e.t, b), "def")
       \cup If(Len(e.cp) = Layout[e.t].n /\
               \A i \in 1..Layout[e.t].n : e.cp[i] = ChShown(e.t, b, i), "def")
       \cup When(e.t \in AOs, If(Len(e.sub) = 4 /\ \A i \in 1..4 : e.sub[i] = Zero, "def")))

-----------------------------------------------------------------------------
(* Telegrams (C16).                                                          *)
ParseEv(e) ==
  NoPanic(e) \cup
  IF TelegramOk(e.b)
  THEN If(e.r = "ok", "tel.refused")
       \cup When(e.r = "ok",
            If(e.v = (IF e.dir = "in" THEN [ci |-> ParseIn(e.b)] ELSE [co |-> ParseOut(e.b)]), "tel.parse"))
  ELSE If(e.r \notin {"ok", "panic"}, "tel.accepted")
       \cup When(Refused(e.r), If(e.r = "BufferLength", "err.tel"))
PackEv(e) ==
  NoPanic(e) \cup
  IF PackOk(e.o.co, e.len)
  THEN If(e.r = "ok", "tel.refused")
       \cup When(e.r = "ok",
            If(e.b = PackOut(e.o.co, e.len), "tel.pack")
            \cup If(e.back = e.o, "tel.roundtrip"))
  ELSE If(e.r \notin {"ok", "panic"}, "tel.accepted")
       \cup When(Refused(e.r), If(Named(e.r, ValueFaults(COM, [len |-> e.len], <<e.o>>)), "err.tel"))

-----------------------------------------------------------------------------
(* Identification (C17, C19).                                                *)
IdRow(n) == <<RowOf[n].id[1], RowOf[n].id[2], n>>
IdScan(e) == NoPanic(e)
  \cup If(RangeOf(e.found) = {IdRow(n) : n \in {m \in Identified : RowOf[m].id[1] \in e.lo..e.hi}}, "id")
  \cup If(Cardinality(RangeOf(e.found)) = Len(e.found), "driver")
NameEv(e) ==
  If(e.r = (IF NormType(e.s) \in TypeNames THEN NormType(e.s) ELSE ""), "name")
  \cup If(e.r # "" \/ e.k = "UnknownModule", "err.name")
CatEv(e) ==
  If(e.r = (IF NormCat(e.s) \in Categories THEN NormCat(e.s) ELSE ""), "cat.name")
  \cup If(e.r # "" \/ e.k = "UnknownCategory", "err.name")
\* every kind of error has a text of its own
Texts(e) ==
  If(Len(e.kinds) = Cardinality(RangeOf(e.kinds)), "driver")
  \cup If(\A i \in DOMAIN e.texts : e.texts[i] # "", "err.text")
  \cup If(Cardinality(RangeOf(e.texts)) = Len(e.texts), "err.text")
TypeEv(e) == NoPanic(e) \cup If(e.cat = CatOf(e.t), "cat") \cup If(e.ch = Chan(e.t), "chan")
ModEv(e) ==
  LET n == IF e.t = COM THEN ConfOf(e).len ELSE 0 IN
  If(e.mt = e.t, "mod.type")
  \cup If(e.inb = InBytes(e.t, n) /\ e.outb = OutBytes(e.t, n), "mod.bytes")
  \cup If(e.nin = ValuesIn(e.t) \/ (InBytes(e.t, n) = 0 /\ e.nin = Chan(e.t)), "mod.values")
  \cup If(e.nout = Chan(e.t), "mod.values")
PairsOf(w) == [k \in 1..(Len(w) \div 2) |-> <<w[2 * k - 1], w[2 * k]>>]
ListEv(e) ==
  NoPanic(e) \cup
  IF Len(e.w) = 0 \/ Len(e.w) % 2 = 1
  THEN If(e.r \notin {"ok", "panic"}, "list.length")
       \cup When(Refused(e.r), If(e.r = "RegisterCount"
               \/ (e.r = "UnknownModule" /\ \E k \in DOMAIN PairsOf(e.w) : PairsOf(e.w)[k] \notin Ids), "err.list"))
  ELSE IF \E k \in DOMAIN PairsOf(e.w) : PairsOf(e.w)[k] \notin Ids
  THEN If(e.r \notin {"ok", "panic"}, "list.unknown") \cup When(Refused(e.r), If(e.r = "UnknownModule", "err.list"))
  ELSE If(e.r = "ok", "list.refused")
       \cup When(e.r = "ok", If(e.v = [k \in DOMAIN PairsOf(e.w) |-> TypeOfId[PairsOf(e.w)[k]]], "list.order"))

-----------------------------------------------------------------------------
(* Addresses (C19).                                                          *)
SplitEv(e) ==
  If(\A k \in DOMAIN e.reg :
       LET a == e.lo + k - 1 IN e.reg[k] = a \div 16 /\ e.bit[k] = a % 16 /\ e.back[k] = a, "adr.split")
\* register e.reg, bit k-1: merged address and its split
MergeEv(e) ==
  If(\A k \in 1..16 :
       /\ e.a[k] = 16 * e.reg + k - 1
       /\ e.back[k] = <<e.reg, k - 1>>, "adr.merge")
OffsEv(e) ==
  LET o(w) == IF w = NoOffset THEN -1 ELSE w IN
  NoPanic(e) \cup If(e.r = "ok", "offs") \cup
  When(e.r = "ok",
    If(e.v = [k \in 1..(Len(e.w) \div 2) |-> <<o(e.w[2 * k - 1]), o(e.w[2 * k])>>], "offs"))
ParAddr(e) ==
  NoPanic(e) \cup If(e.r = "ok", "padr") \cup
  When(e.r = "ok",
    If(e.v = [k \in DOMAIN e.mods |-> <<49152 + 256 * (k - 1), RegCount(e.mods[k])>>], "padr"))

-----------------------------------------------------------------------------
(* The stateless image functions (C23): any list of modules, each behind its   *)
(* own bytes.                                                                 *)
StateOf(e) == NewState(e.mods, e.offs, e.par)
RegularIn(s) == \A i \in DOMAIN s.mods : HasIn(s, i) <=> NIn(s, i) > 0
RegularOut(s) == \A i \in DOMAIN s.mods : HasOut(s, i) <=> NOut(s, i) > 0
RowsMatch(exp, obs) ==
  /\ Len(exp) = Len(obs)
  /\ \A i \in DOMAIN exp : Len(exp[i]) = Len(obs[i]) /\ \A k \in DOMAIN exp[i] : Matches(exp[i][k], obs[i][k])
FreeIn(e) ==
  LET s == StateOf(e) IN
  NoPanic(e) \cup
  (IF ~RegularIn(s) THEN {}
   ELSE IF InOk(s, e.img)
   THEN If(e.r = "ok", "fin.refused")
        \cup When(e.r = "ok", If(RowsMatch([i \in DOMAIN s.mods |-> InValues(s, i, e.img)], e.v), "fin.value"))
   ELSE If(e.r # "ok", "fin.accepted")
        \cup When(Refused(e.r), If(Named(e.r, InFaults(s, e.img)), "err.image")))
FreeOut(e) ==
  LET s == StateOf(e) IN
  NoPanic(e) \cup
  (IF ~RegularOut(s) THEN {}
   ELSE IF OutOk(s, e.img)
   THEN If(e.r = "ok", "fout.refused")
        \cup When(e.r = "ok", If(RowsMatch([i \in DOMAIN s.mods |-> OutValues(s, i, e.img)], e.v), "fout.value"))
   ELSE If(e.r # "ok", "fout.accepted")
        \cup When(Refused(e.r), If(Named(e.r, OutFaults(s, e.img)), "err.image")))
\* vs[i] encoded at the bytes of module i, nothing elsewhere
Drawn(s, vs, o) ==
  IF Len(o) # ImageLen(Spans(s)) THEN {"fval.len"}
  ELSE LET outs == {k \in DOMAIN s.mods : HasOut(s, k)}
           owned == UNION {LET b == ByteOf(OutOff(s.off, i), OutBase) IN b..(b + NOut(s, i) - 1) : i \in outs}
       IN If(\A i \in outs : BadChannels(s.mods[i], s.conf[i], vs[i], OutSlice(s, i, o)) = {}, "fval.value")
          \cup If(\A b \in 0..(2 * Len(o) - 1) : b \in owned \/ ImgByte(o, b) = 0, "fval.gap")
FreeVal(e) ==
  LET s == StateOf(e)
      outs == {k \in DOMAIN s.mods : HasOut(s, k)}
      wrong == UNION {ValueFaults(s.mods[i], s.conf[i], e.vs[i]) : i \in outs \cap DOMAIN e.vs}
  IN NoPanic(e) \cup
  (IF ~RegularOut(s) \/ ~(Packed(Spans(s)) \/ ~CanAssemble(Spans(s))) THEN {}
   ELSE IF Len(e.vs) = Len(s.mods) /\ CanAssemble(Spans(s))
           /\ \A i \in outs : EncodeOk(s.mods[i], s.conf[i], e.vs[i])
   THEN If(e.r = "ok", "fval.refused") \cup When(e.r = "ok", Drawn(s, e.vs, e.o))
   ELSE If(e.r # "ok", "fval.accepted")
        \cup When(Refused(e.r),
             If(Named(e.r, wrong \cup K(Len(e.vs) # Len(s.mods), "ChannelValue")
                               \cup K(~CanAssemble(Spans(s)), "ModuleOffset")), "err.image")))
\* an output image, decoded and encoded again
FreeTrip(e) ==
  LET s == StateOf(e) IN
  NoPanic(e) \cup
  (IF ~RegularOut(s) \/ ~Packed(Spans(s)) \/ ~OutOk(s, e.img) THEN {}
   ELSE LET vs == [i \in DOMAIN s.mods |-> OutValues(s, i, e.img)] IN
     IF \E i \in DOMAIN s.mods : HasOut(s, i) /\ ~EncodeOk(s.mods[i], s.conf[i], vs[i]) THEN If(e.r # "ok", "fval.accepted")
     ELSE If(e.r = "ok", "trip.refused") \cup When(e.r = "ok", If(Drawn(s, vs, e.o) = {}, "trip.value")))

-----------------------------------------------------------------------------
Judge(e) ==
  CASE e.e = "par" -> ParEv(e)        [] e.e = "scan" -> Scan(e)
    [] e.e = "pc" -> Count(e)         [] e.e = "ai" -> AnalogTable(e)
    [] e.e = "drive" -> AnalogDrive(e) [] e.e = "keep" -> Keep(e)
    [] e.e = "bin" -> BitsInTable(e)  [] e.e = "bout" -> BitsOutTable(e)
    [] e.e = "sil" -> SilTable(e)
    [] e.e = "dec" -> Dec(e)          [] e.e = "enc" -> Enc(e)
    [] e.e = "parse" -> ParseEv(e)    [] e.e = "pack" -> PackEv(e)
    [] e.e = "ids" -> IdScan(e)       [] e.e = "name" -> NameEv(e)
    [] e.e = "cat" -> CatEv(e)        [] e.e = "type" -> TypeEv(e)
    [] e.e = "mod" -> ModEv(e)        [] e.e = "list" -> ListEv(e)
    [] e.e = "split" -> SplitEv(e)    [] e.e = "merge" -> MergeEv(e)
    [] e.e = "offs" -> OffsEv(e)      [] e.e = "padr" -> ParAddr(e)
    [] e.e = "hz" -> Hertz(e)         [] e.e = "hzs" -> HertzShort(e)
    [] e.e = "def" -> Def(e)
    [] e.e = "ddec" -> Dec(ByDefault(e)) [] e.e = "denc" -> Enc(ByDefault(e))
    [] e.e = "dmod" -> ModEv(ByDefault(e))
    [] e.e = "fin" -> FreeIn(e)       [] e.e = "fout" -> FreeOut(e)
    [] e.e = "fval" -> FreeVal(e)     [] e.e = "ftrip" -> FreeTrip(e)
    [] e.e = "texts" -> Texts(e)
    [] e.e = "crash" -> {"crash"}
    [] e.e = "any" -> NoPanic(e)      \* any other call: it must not panic

Init == l = 1 /\ bad = {}
Next == l <= N /\ l' = l + 1 /\ bad' = Judge(ev)
Spec == Init /\ [][Next]_<<l, bad>>
Conforms == bad \cap Checks = {}
Consumed == TLCGet("stats").diameter - 1 = N
Shown == [l |-> l - 1, bad |-> bad]
=============================================================================
