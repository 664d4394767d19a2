------------------------------- MODULE Coupler -------------------------------
(* The coupler: modules behind a packed input and output image, pending       *)
(* writes, one serial host per serial module, and the values it reports.      *)
(* Written as operators on an explicit coupler state so that the exhaustive   *)
(* model (MCCoupler), the behaviour generator (GenCoupler) and the trace      *)
(* specification (TraceCoupler) share one definition of every step.           *)
EXTENDS Codec, Image, SerialHost, TLC

-----------------------------------------------------------------------------
(* Configuration.                                                            *)
\* offsets come in pairs: output, input
OutOff(offs, i) == offs[2 * i - 1]
InOff(offs, i) == offs[2 * i]

NewOk(mods, offs, blocks) ==
  /\ Len(mods) = Len(blocks)
  /\ Len(offs) = 2 * Len(mods)
  /\ \A i \in DOMAIN mods : Verdict(mods[i], blocks[i]) = "ok"
ParamError(mods, offs, blocks) ==
  /\ Len(mods) = Len(blocks)
  /\ Len(offs) = 2 * Len(mods)
  /\ \E i \in DOMAIN mods : Verdict(mods[i], blocks[i]) = "param"
  /\ \A i \in DOMAIN mods : Verdict(mods[i], blocks[i]) # "length"

\* s.mods, s.conf: configuration;  s.off: offsets;  s.pend: pending writes;
\* s.host: serial hosts;  s.ltx: transmit counter each serial module's output
\* image had in its previous cycle;  s.iv, s.ov: reported values
NewState(mods, offs, blocks) ==
  [mods |-> mods, off |-> offs,
   conf |-> [i \in DOMAIN mods |-> Conf(mods[i], blocks[i])],
   pend |-> <<>>,
   host |-> [i \in {k \in DOMAIN mods : mods[k] = COM} |->
               HostInit(IF blocks[i][1] = 0 THEN 8 ELSE 16)],
   ltx |-> [i \in {k \in DOMAIN mods : mods[k] = COM} |-> 0],
   iv |-> <<>>, ov |-> <<>>]

ComLen(s, i) == IF s.mods[i] = COM THEN s.conf[i].len ELSE 0
NIn(s, i) == InBytes(s.mods[i], ComLen(s, i))
NOut(s, i) == OutBytes(s.mods[i], ComLen(s, i))
HasIn(s, i) == InOff(s.off, i) # NoOffset
HasOut(s, i) == OutOff(s.off, i) # NoOffset

\* An offset for a direction in which the module has no data, an absent offset
\* for a direction in which it has, or overlapping outputs: nothing is claimed
\* for the values of such a configuration.
Regular(s) ==
  \A i \in DOMAIN s.mods : (HasIn(s, i) <=> NIn(s, i) > 0) /\ (HasOut(s, i) <=> NOut(s, i) > 0)
\* data of a module that cannot be where its offset says
Unreadable(s, in, out) ==
  \E i \in DOMAIN s.mods :
    \/ HasIn(s, i) /\ NIn(s, i) > 0 /\ ~Fits(in, InOff(s.off, i), InBase, NIn(s, i))
    \/ HasOut(s, i) /\ NOut(s, i) > 0 /\ ~Fits(out, OutOff(s.off, i), OutBase, NOut(s, i))
RECURSIVE SpansFrom(_, _)
SpansFrom(s, i) ==
  IF i > Len(s.mods) THEN <<>>
  ELSE (IF HasOut(s, i) THEN <<[off |-> OutOff(s.off, i), n |-> NOut(s, i)]>> ELSE <<>>)
       \o SpansFrom(s, i + 1)
Spans(s) == SpansFrom(s, 1)

InSlice(s, i, img) == SliceBytes(img, InOff(s.off, i), InBase, NIn(s, i))
OutSlice(s, i, img) == SliceBytes(img, OutOff(s.off, i), OutBase, NOut(s, i))

-----------------------------------------------------------------------------
(* Writes.                                                                   *)
ValidAddr(s, m, c) == m \in 1..Len(s.mods) /\ c \in 1..Chan(s.mods[m])
PendKeys(s) == {<<s.pend[k].m, s.pend[k].c>> : k \in DOMAIN s.pend}
Pending(s, m, c) == \E k \in DOMAIN s.pend : s.pend[k].m = m /\ s.pend[k].c = c
PendVal(s, m, c) ==
  LET k == CHOOSE k \in DOMAIN s.pend : s.pend[k].m = m /\ s.pend[k].c = c IN s.pend[k].v
SetOutput(s, m, c, v) ==
  [s EXCEPT !.pend = SelectSeq(@, LAMBDA p : ~(p.m = m /\ p.c = c))
                     \o <<[m |-> m, c |-> c, v |-> v]>>]

-----------------------------------------------------------------------------
(* A cycle.                                                                  *)
InOk(s, img) ==
  \A i \in DOMAIN s.mods : HasIn(s, i) =>
    /\ Fits(img, InOff(s.off, i), InBase, NIn(s, i))
    /\ DecodeOk(s.mods[i], InSlice(s, i, img))
OutOk(s, img) ==
  \A i \in DOMAIN s.mods : HasOut(s, i) =>
    /\ Fits(img, OutOff(s.off, i), OutBase, NOut(s, i))
    /\ DecodeOk(s.mods[i], OutSlice(s, i, img))

EmptyValues(s, i) == [k \in 1..Chan(s.mods[i]) |-> None]
InValues(s, i, img) ==
  IF HasIn(s, i) THEN DecodeIn(s.mods[i], s.conf[i], InSlice(s, i, img)) ELSE EmptyValues(s, i)
OutValues(s, i, img) ==
  IF HasOut(s, i) THEN DecodeOut(s.mods[i], s.conf[i], OutSlice(s, i, img)) ELSE EmptyValues(s, i)

\* the values to encode for a module that is not serial
NextValues(s, i, img) ==
  LET cur == OutValues(s, i, img) IN
  TLCEval([c \in DOMAIN cur |-> IF Pending(s, i, c) THEN PendVal(s, i, c) ELSE cur[c]])
ValuesOk(s, img) ==
  /\ CanAssemble(Spans(s))
  /\ \A i \in DOMAIN s.mods : HasOut(s, i) /\ s.mods[i] # COM =>
        EncodeOk(s.mods[i], s.conf[i], NextValues(s, i, img))

\* "image": refused because of the images; "value": because of a value to
\* encode; "ok"
Class(s, in, out) ==
  IF ~(InOk(s, in) /\ OutOk(s, out)) THEN "image"
  ELSE IF ~ValuesOk(s, out) THEN "value" ELSE "ok"

ComIn(s, i, in) == ParseIn(InSlice(s, i, in))
ComOut(s, i, out) == ParseOut(OutSlice(s, i, out))
\* the host of module i after a pending byte string was handed to it
HostBefore(s, i) ==
  IF Pending(s, i, 1) /\ IsBytes(PendVal(s, i, 1))
  THEN HostWrite(s.host[i], PendVal(s, i, 1).y) ELSE s.host[i]
ComNext(s, i, in, out) == HostOut(HostBefore(s, i), ComIn(s, i, in), ComOut(s, i, out))

\* what is reported for a serial module
ComInReport(ci) == IF ci.av /\ ci.d # <<>> THEN <<[y |-> ci.d]>> ELSE <<None>>
ComOutReport(s, i, co) ==
  IF co.d # <<>> /\ co.tx # s.ltx[i] THEN <<[y |-> co.d]>> ELSE <<None>>

OnlySerial(s) == SelectSeq(s.pend, LAMBDA p : s.mods[p.m] = COM)

Accepted(s, in, out) ==
  [s EXCEPT
    !.pend = <<>>,
    !.host = [i \in DOMAIN s.host |->
                HostAfter(HostBefore(s, i), ComIn(s, i, in), ComOut(s, i, out))],
    !.ltx = [i \in DOMAIN s.ltx |-> ComOut(s, i, out).tx],
    !.iv = [i \in DOMAIN s.mods |->
              IF s.mods[i] = COM THEN ComInReport(ComIn(s, i, in)) ELSE InValues(s, i, in)],
    !.ov = [i \in DOMAIN s.mods |->
              IF s.mods[i] = COM THEN ComOutReport(s, i, ComOut(s, i, out))
              ELSE OutValues(s, i, out)]]
RejectedImage(s) == s
RejectedValue(s) == [s EXCEPT !.pend = OnlySerial(s)]

AfterCycle(s, class, in, out) ==
  CASE class = "ok" -> Accepted(s, in, out)
    [] class = "image" -> RejectedImage(s)
    [] OTHER -> RejectedValue(s)
CycleState(s, in, out) == AfterCycle(s, Class(s, in, out), in, out)

-----------------------------------------------------------------------------
(* The image an accepted cycle returns (deterministic part: analog values    *)
(* that were written as decimals are not determined to the bit).             *)
RawOf(v, cf) == IF IsAna(v) THEN (IF cf.rg = "Disabled" THEN 0 ELSE v.a) ELSE 0
EncodeBytes(t, cf, vs) ==
  CASE t \in DOs ->
         IF Chan(t) = 16
         THEN LET w == WordOfBits([k \in 1..16 |-> BitOf(vs[k])]) IN <<Lo(w), Hi(w)>>
         ELSE <<WordOfBits([k \in 1..Chan(t) |-> BitOf(vs[k])])>>
    [] t \in AOs -> BytesOf([k \in 1..4 |-> RawOf(vs[k], cf.ch[k])])
    [] t = FCNT -> BytesOf(
         LET p(k) == IF IsDisabled(vs[k]) THEN <<0, 0>> ELSE PresetRaw(vs[k].fo.p)
             c(k) == IF IsDisabled(vs[k]) THEN 0 ELSE CmdRaw(vs[k].fo.c)
         IN p(1) \o p(2) \o <<c(1), c(2)>>)
    [] t = COM -> PackOut(vs[1].co, cf.len)
NextBytes(s, i, in, out) ==
  IF s.mods[i] = COM THEN PackOut(ComNext(s, i, in, out), s.conf[i].len)
  ELSE EncodeBytes(s.mods[i], s.conf[i], NextValues(s, i, out))
\* owner of byte b (from 0) of the output image: module index or 0
Owner(s, b) ==
  LET c == {i \in DOMAIN s.mods : HasOut(s, i) /\
              b >= ByteOf(OutOff(s.off, i), OutBase) /\
              b < ByteOf(OutOff(s.off, i), OutBase) + NOut(s, i)}
  IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE
NextImage(s, in, out) ==
  LET enc == TLCEval([i \in {k \in DOMAIN s.mods : HasOut(s, k)} |-> NextBytes(s, i, in, out)])
      byte(b) == LET i == Owner(s, b) IN
                 IF i = 0 THEN 0 ELSE enc[i][b - ByteOf(OutOff(s.off, i), OutBase) + 1]
  IN TLCEval([k \in 1..ImageLen(Spans(s)) |-> byte(2 * k - 2) + 256 * byte(2 * k - 1)])
=============================================================================
