-------------------------------- MODULE MCCodec --------------------------------
(* Design model of the codec: what the encodings of the specification promise *)
(* by themselves, explored over all raw words (and all values of the other    *)
(* small domains).  A state is a raw word, the action picks the next one.     *)
EXTENDS Faults

CONSTANTS Topic,      \* "analog", "counter", "bits", "serial"
          Step        \* explore every Step-th high byte and those at the ends
VARIABLES hi, lo      \* the raw word 256 * hi + lo; lo = -1: not chosen yet
vars == <<hi, lo>>
raw == 256 * hi + lo
n == I16(raw)

Highs == {h \in 0..255 : h % Step = 0 \/ h \in {1, 7, 8, 107, 108, 127, 129, 254, 255}}
Init == hi \in Highs /\ lo = -1
Next == lo = -1 /\ lo' \in 0..255 /\ UNCHANGED hi
Spec == Init /\ [][Next]_vars
On(t, P) == (Topic = t /\ lo >= 0) => P

-----------------------------------------------------------------------------
(* Analog channels.                                                          *)
Formats == RangeOf(Format)
UI(r, rg, fm) == UIVal(r, rg, fm)
Up(r) == (r + 1) % 65536        \* the word one unit above (except above 32767)
\* one unit of the raw word in 1e-6 of the physical unit, rounded down
Unit(rg, fm) == (Span(rg) * 1000000) \div Factor(fm)

\* C13: more raw is more, in equal steps
Monotone ==
  On("analog", n < 32767 =>
    \A rg \in UIRanges, fm \in Formats :
      UI(Up(raw), rg, fm) - UI(raw, rg, fm) \in Unit(rg, fm)..(Unit(rg, fm) + 1))
\* C13: rated values are exact: 0 is the lower, the format's factor the upper end
Rated ==
  On("analog", \A rg \in UIRanges, fm \in Formats :
     /\ raw = 0 => UI(raw, rg, fm) = Ofs(rg) * 1000000
     /\ raw = Factor(fm) => UI(raw, rg, fm) = (Ofs(rg) + Span(rg)) * 1000000)
\* C13: negative words mirror the positive ones at the lower end
Mirrored ==
  On("analog", n \in 1..32767 =>
    \A rg \in UIRanges, fm \in Formats :
      LET z == Ofs(rg) * 1000000 IN
      UI(raw, rg, fm) - z + (UI(U16(-n), rg, fm) - z) \in -1..0)
\* the tolerance can not hide a neighbour
Dec2(v) == [f |-> "n", d |-> <<v \div 10, v, 0>>]
Told ==
  On("analog", \A rg \in UIRanges, fm \in Formats :
    /\ DecMatches(Dec2(UI(raw, rg, fm)), raw, rg, fm)
    /\ n < 32767 => ~DecMatches(Dec2(UI(raw, rg, fm)), Up(raw), rg, fm)
    /\ n > -32768 => ~DecMatches(Dec2(UI(raw, rg, fm)), U16(n - 1), rg, fm))
Temps ==
  On("analog", \A rg \in {"PT100", "Cu10", "TC_Type_B"} :
     LET p == Phys(raw, rg, "S5") IN p.v = n * 10000 /\ 2 * p.t < 10000)
Ohms ==
  On("analog", \A rg \in DOMAIN Ohm :
     LET p == Phys(raw, rg, "S5") IN
     /\ raw = 27648 => p.v = Ohm[rg] * 100000
     /\ raw < 65535 => Phys(Up(raw), rg, "S5").v - p.v > 2 * p.t)
Volts ==
  On("analog", \A rg \in DOMAIN MicroVolt :
     LET p == Phys(raw, rg, "S5") IN
     /\ raw = 32767 => Abs(p.v - MicroVolt[rg] * 1000) <= 128
     /\ raw = 0 => p.v = 0
     /\ n < 32767 => Phys(Up(raw), rg, "S5").v - p.v > 2 * p.t)

\* C15 (and C07): writing what was read drives the same word, and no other one
RoundTrip ==
  On("analog", \A rg \in UIRanges, fm \in Formats :
    LET v == Dec2(UI(raw, rg, fm)) IN
    /\ NearestOk(v, raw, rg, fm)
    /\ n \in -32766..32765 =>
         \A d \in {-2, -1, 1, 2} : ~NearestOk(v, U16(n + d), rg, fm))
\* C15: the middle between two words may go either way, but not further;
\* beyond the ends the value stays at the end
Nearest ==
  On("analog", \A rg \in UIRanges, fm \in Formats :
    LET v == Dec2(UI(raw, rg, fm) + Unit(rg, fm) \div 3) IN
    /\ NearestOk(v, raw, rg, fm)
    /\ n < 32765 => ~NearestOk(v, U16(n + 2), rg, fm)
    /\ n > -32766 => ~NearestOk(v, U16(n - 2), rg, fm))
Saturated ==
  On("analog", \A rg \in UIRanges, fm \in Formats :
    /\ NearestOk(Dec2(2000000000), raw, rg, fm) <=> raw = 32767
    /\ NearestOk(Dec2(-2000000000), raw, rg, fm) <=> raw = 32768)
\* a range that is switched off shows and drives nothing
Off ==
  On("analog", /\ AnalogIn(raw, "Disabled", "S7") = Disabled
               /\ AnalogOutOk(Disabled, raw, "V0To10", "S7") <=> raw = 0
               /\ NearestOk(Dec2(5), raw, "Disabled", "S5") <=> raw = 0)
\* C13: an open thermocouple is no temperature, everything else is a number
Open ==
  On("analog", \A rg \in TCTypes :
     (AnalogIn(raw, rg, "S5") = None) <=> raw = 32767)

-----------------------------------------------------------------------------
(* Frequency counter (C14).                                                  *)
Later(p, q, ns) ==    \* q is ns nanoseconds after p
  \/ q[1] = p[1] /\ q[2] = p[2] + ns
  \/ q[1] = p[1] + 1 /\ q[2] + 1000000000 = p[2] + ns
Valid(p) == p[1] >= 0 /\ p[2] \in 0..999999999
Counter ==
  On("counter",
    /\ \A w \in {0, 1, 32767, 32768, 65534, 65535} :
         /\ FcntPeriod(raw, w) # <<>> => Valid(FcntPeriod(raw, w))
         /\ (FcntPeriod(raw, w) = <<>>) <=> (raw > 2047 \/ (raw = 2047 /\ w = 65535))
         /\ (raw < 2047 \/ (raw = 2047 /\ w < 65534)) /\ w < 65535
              => Later(FcntPeriod(raw, w), FcntPeriod(raw, w + 1), 125)
         /\ raw < 2047 => Later(FcntPeriod(raw, 65535), FcntPeriod(raw + 1, 0), 125)
         /\ Valid(FcntPreset(raw, w))
         /\ w < 65535 => Later(FcntPreset(raw, w), FcntPreset(raw, w + 1), 1000)
         \* C07: a preset that can be written comes back
         /\ PresetOk(FcntPreset(raw, w)) => PresetRaw(FcntPreset(raw, w)) = <<raw, w>>
         /\ PresetOk(FcntPreset(raw, w)) <=> raw < 128
    /\ raw < 65535 => Later(FcntPreset(raw, 65535), FcntPreset(raw + 1, 0), 1000)
    /\ CmdOf(CmdRaw(CmdOf(raw))) = CmdOf(raw)
    /\ \A c \in {"start", "stop", "none"} : CmdOf(CmdRaw(c)) = c)

-----------------------------------------------------------------------------
(* Digital channels and status bits (C14).                                   *)
Bits2 == <<Lo(raw), Hi(raw)>>
Digital ==
  On("bits",
    /\ BytesOf(<<raw>>) = Bits2 /\ WordsOf(Bits2) = <<raw>>
    /\ WordOfBits([k \in 1..16 |-> BitsIn(Bits2, 16)[k].b]) = raw
    /\ \A t \in DOs :
         LET vs == DecodeOut(t, [none |-> TRUE], Bits2)
             bs == EncodeBytes(t, [none |-> TRUE], vs) IN
         /\ Len(vs) = Chan(t) /\ EncodeOk(t, [none |-> TRUE], vs)
         /\ Len(bs) = OutBytes(t, 0)
         /\ BadChannels(t, [none |-> TRUE], vs, bs) = {}
         /\ DecodeOut(t, [none |-> TRUE], bs \o <<0>>) = vs
         \* C06: changing one channel changes its bit and no other
         /\ \A c \in 1..Chan(t) :
              LET ws == [vs EXCEPT ![c].b = ~@] IN
              /\ BadChannels(t, [none |-> TRUE], vs, EncodeBytes(t, [none |-> TRUE], ws)) = {c}
              /\ DecodeOut(t, [none |-> TRUE], EncodeBytes(t, [none |-> TRUE], ws) \o <<0>>) = ws
    /\ \A t \in DIs : Len(DecodeIn(t, [none |-> TRUE], Bits2)) = Chan(t)
    \* the safety module's flags are seven different bits of the two bytes
    /\ \A k \in 0..15 :
         raw = P2[k + 1] => Cardinality({j \in 1..7 : SilIn(Bits2).si[j]}) =
                               (IF k \in {0, 2, 3, 4, 5, 8, 10} THEN 1 ELSE 0))

-----------------------------------------------------------------------------
(* Serial telegrams (C16): hi is the status byte, lo selects the rest.        *)
Payload == [k \in 1..(lo % 7) |-> (37 * k + lo) % 256]
Serial ==
  On("serial",
    \A len \in {8, 16} :
      LET bs == <<hi, Len(Payload)>> \o Payload \o [k \in 1..(len - 2 - Len(Payload)) |-> lo]
          o == ParseOut(bs)
          i == ParseIn(bs)
          p == PackOut(o, len) IN
      /\ TelegramOk(bs) /\ PackOk(o, len)
      /\ o.d = Payload /\ i.d = Payload
      /\ o.tx \in 0..3 /\ o.ra \in 0..3 /\ i.rx = o.tx /\ i.ta = o.ra
      /\ Len(p) = len /\ ParseOut(p) = o /\ PackOut(ParseOut(p), len) = p
      /\ \A k \in DOMAIN p : p[k] \in 0..255
      \* the status byte comes back but for its unused bits 
      /\ p[1] = hi - (IF Bit(hi, 5 + 2) /\ ~o.rst THEN 128 ELSE 0)
      \* every flag has a bit of its own
      /\ ParseOut(<<(IF o.rf THEN hi - 1 ELSE hi + 1)>> \o Tail(bs)) = [o EXCEPT !.rf = ~@]
      /\ ParseOut(<<(IF o.rst THEN hi - 128 ELSE hi + 128)>> \o Tail(bs)) = [o EXCEPT !.rst = ~@]
      \* an announced length that is not there is no telegram
      /\ ~TelegramOk(<<hi, len - 1>> \o SubSeq(bs, 3, len))
      /\ ~PackOk([o EXCEPT !.d = [k \in 1..(len - 1) |-> 0]], len)
      /\ ~PackOk([o EXCEPT !.tx = 4], len) /\ ~PackOk([o EXCEPT !.ra = 4], len)
      \* C24: what cannot be packed has a named cause, what can has none
      /\ ValueFaults(COM, [len |-> len], <<[co |-> o]>>) = {}
      /\ ValueFaults(COM, [len |-> len], <<[co |-> [o EXCEPT !.tx = 4]]>>) = {"SequenceNumber"}
      /\ ValueFaults(COM, [len |-> len], <<[co |-> [o EXCEPT !.d = [k \in 1..(len - 1) |-> 0]]]>>) # {})
=============================================================================
