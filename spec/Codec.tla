-------------------------------- MODULE Codec --------------------------------
(* Channel values and how each module type maps them to and from its bytes.  *)
(*                                                                           *)
(* Representation of a channel value (also used in recorded traces):         *)
(*   [b |-> BOOLEAN]                          a bit                          *)
(*   [f |-> "n", d |-> <<d5, d6, d9>>]        a decimal, rounded to 1e-5,     *)
(*                                            1e-6 and 1e-9 (clipped)        *)
(*   [f |-> "nan"]                                                           *)
(*   [x |-> "disabled"] / [x |-> "none"]                                     *)
(*   [y |-> bytes]                            a byte string                  *)
(*   [ci |-> ...] / [co |-> ...]              serial telegrams in / out      *)
(*   [fi |-> ...] / [fo |-> ...]              frequency counter in / out     *)
(*   [si |-> <<7 bits>>]                      safety status                  *)
(* An expected analog value is symbolic, [a |-> raw word, rg, fm]: Matches   *)
(* compares it with a recorded decimal in integer arithmetic.                *)
EXTENDS Params

None == [x |-> "none"]
Disabled == [x |-> "disabled"]

IsBit(v) == "b" \in DOMAIN v
IsDec(v) == "f" \in DOMAIN v
IsBytes(v) == "y" \in DOMAIN v
IsFcntOut(v) == "fo" \in DOMAIN v
IsComOut(v) == "co" \in DOMAIN v
IsAna(v) == "a" \in DOMAIN v
IsDisabled(v) == "x" \in DOMAIN v /\ v.x = "disabled"

-----------------------------------------------------------------------------
(* Analog scaling.                                                           *)

Factor(fm) == IF fm = "S5" THEN 16384 ELSE 27648
\* span and offset (in units) of the current/voltage ranges
Span(rg) == CASE rg = "mA0To20" -> 20 [] rg = "mA4To20" -> 16
              [] rg \in {"V0To10", "VMinus10To10"} -> 10
              [] rg \in {"V0To5", "VMinus5To5"} -> 5
              [] rg = "V1To5" -> 4 [] rg = "V2To10" -> 8
Ofs(rg) == CASE rg = "mA4To20" -> 4 [] rg = "V1To5" -> 1 [] rg = "V2To10" -> 2 [] OTHER -> 0

UIRanges == RangeOf(UIRange) \ {"Disabled"}
TempRanges == {"PT100","PT200","PT500","PT1000","NI100","NI120","NI200","NI500","NI1000","Cu10"}
TCTypes == {"TC_Type_J","TC_Type_K","TC_Type_N","TC_Type_R","TC_Type_S","TC_Type_T",
            "TC_Type_B","TC_Type_C","TC_Type_E","TC_Type_L","TC_Type_U"}
Ohm == [rg \in {"R40","R80","R150","R300","R500","R1000","R2000","R4000"} |->
  CASE rg = "R40" -> 40 [] rg = "R80" -> 80 [] rg = "R150" -> 150 [] rg = "R300" -> 300
    [] rg = "R500" -> 500 [] rg = "R1000" -> 1000 [] rg = "R2000" -> 2000 [] OTHER -> 4000]
\* full scale in microvolt
MicroVolt == [rg \in {"uVPlusMinus15625","uVPlusMinus31250","uVPlusMinus62500",
                      "mVPlusMinus125","mVPlusMinus250","mVPlusMinus500",
                      "VPlusMinus1","VPlusMinus2"} |->
  CASE rg = "uVPlusMinus15625" -> 15625 [] rg = "uVPlusMinus31250" -> 31250
    [] rg = "uVPlusMinus62500" -> 62500 [] rg = "mVPlusMinus125" -> 125000
    [] rg = "mVPlusMinus250" -> 250000 [] rg = "mVPlusMinus500" -> 500000
    [] rg = "VPlusMinus1" -> 1000000 [] OTHER -> 2000000]

\* floor(n * 10^k / d) by long division, k = 3 * m; requires |n mod d| * 1000 < 2^31
RECURSIVE ScaleDiv(_, _, _)
ScaleDiv(n, d, m) ==
  IF m = 0 THEN n \div d
  ELSE LET q == n \div d  r == n % d
       IN q * (IF m = 1 THEN 1000 ELSE IF m = 2 THEN 1000000 ELSE 1000000000)
          + ScaleDiv(r * 1000, d, m - 1)

\* The documented physical value, scaled: [s |-> index into d, v |-> integer,
\* t |-> tolerance for single precision arithmetic]
UIVal(raw, rg, fm) == ScaleDiv(I16(raw) * Span(rg), Factor(fm), 2) + Ofs(rg) * 1000000
Phys(raw, rg, fm) ==
  IF rg \in UIRanges THEN [s |-> 2, v |-> UIVal(raw, rg, fm), t |-> 16]
  ELSE IF rg \in TempRanges \cup TCTypes THEN
    [s |-> 1, v |-> I16(raw) * 10000, t |-> 2 + Abs(I16(raw)) \div 200]
  ELSE IF rg \in DOMAIN Ohm THEN
    \* ohm * raw * 10^5 / 27648, exactly: quotient and remainder
    LET n == Ohm[rg] * raw
        v == (n \div 27648) * 100000 + ((n % 27648) * 3125) \div 864
    IN [s |-> 1, v |-> v, t |-> 3 + v \div 2000000]
  ELSE \* thermocouple module, voltage ranges: uV * raw / 32767, in nV
    LET n == I16(raw)
        k == MicroVolt[rg] \div 15625     \* 15625000 * n / 32767 = 476 n + 27908 n / 32767
        m == n * 27908
    IN [s |-> 3, v |-> k * (476 * n) + k * (m \div 32767) + (k * (m % 32767)) \div 32767,
        t |-> 3 + Abs(k * 476 * n) \div 2000000]

\* The value a channel of range rg reports for a raw word.
AnalogIn(raw, rg, fm) ==
  IF rg = "Disabled" THEN Disabled
  ELSE IF rg \in TCTypes /\ raw = 32767 THEN None
  ELSE [a |-> raw, rg |-> rg, fm |-> fm]

DecMatches(v, raw, rg, fm) ==
  /\ IsDec(v) /\ v.f = "n"
  /\ LET p == Phys(raw, rg, fm) IN Abs(v.d[p.s] - p.v) <= p.t

-----------------------------------------------------------------------------
(* Driving analog outputs: raw is an acceptable encoding of v.               *)
HalfLsb(rg, fm) == (Span(rg) * 1000000) \div (2 * Factor(fm)) + 1
EncTol(rg, fm) == 16 + HalfLsb(rg, fm) \div 16

NearestOk(v, raw, rg, fm) ==
  IF rg = "Disabled" THEN raw = 0
  ELSE IF v.f = "nan" THEN TRUE
  ELSE LET x == v.d[2]
           hi == UIVal(32767, rg, fm)
           lo == UIVal(32768, rg, fm)
       IN IF x >= hi THEN raw = 32767 \/ (x - hi <= EncTol(rg, fm) /\ raw = 32766)
          ELSE IF x <= lo THEN raw = 32768 \/ (lo - x <= EncTol(rg, fm) /\ raw = 32769)
          ELSE Abs(UIVal(raw, rg, fm) - x) <= HalfLsb(rg, fm) + EncTol(rg, fm)

\* v is the value written for an analog output channel (or the decoded one)
AnalogOutOk(v, raw, rg, fm) ==
  IF IsDisabled(v) THEN raw = 0
  ELSE IF IsAna(v) THEN raw = (IF rg = "Disabled" THEN 0 ELSE v.a)
  ELSE NearestOk(v, raw, rg, fm)

-----------------------------------------------------------------------------
(* Serial telegrams.                                                         *)
ParseIn(bs) ==
  [av |-> Bit(bs[1], 0), nf |-> Bit(bs[1], 1), rx |-> (bs[1] \div 8) % 4,
   ta |-> (bs[1] \div 32) % 4, rdy |-> Bit(bs[1], 7), d |-> SubSeq(bs, 3, 2 + bs[2])]
ParseOut(bs) ==
  [rf |-> Bit(bs[1], 0), tf |-> Bit(bs[1], 1), hw |-> Bit(bs[1], 2), tx |-> (bs[1] \div 8) % 4,
   ra |-> (bs[1] \div 32) % 4, rst |-> Bit(bs[1], 7), d |-> SubSeq(bs, 3, 2 + bs[2])]
TelegramOk(bs) == Len(bs) >= 2 /\ Len(bs) >= bs[2] + 2

PackOk(o, len) == o.tx <= 3 /\ o.ra <= 3 /\ Len(o.d) <= len - 2
B2(b, n) == IF b THEN n ELSE 0
PackOut(o, len) ==
  <<B2(o.rf, 1) + B2(o.tf, 2) + B2(o.hw, 4) + 8 * o.tx + 32 * o.ra + B2(o.rst, 128), Len(o.d)>>
  \o o.d \o [k \in 1..(len - 2 - Len(o.d)) |-> 0]

-----------------------------------------------------------------------------
(* Frequency counter.  Durations are <<seconds, nanoseconds>>.                *)
FcntPeriod(hi, lo) ==      \* 125 ns ticks
  IF hi > 2047 \/ (hi = 2047 /\ lo = 65535) THEN <<>>       \* overflow: no duration
  ELSE LET d == hi * 65536 + lo IN <<d \div 8000000, (d % 8000000) * 125>>
FcntPreset(hi, lo) ==      \* microseconds
  LET a == hi * 8192
      ra == 8 * (a % 125000) + lo
  IN <<a \div 125000 + ra \div 1000000, (ra % 1000000) * 1000>>
PresetOk(p) == p[1] < 8 \/ (p[1] = 8 /\ p[2] <= 388607000)
PresetRaw(p) == LET us == p[1] * 1000000 + p[2] \div 1000 IN <<us \div 65536, us % 65536>>
CmdOf(w) == IF Bit(w, 8) THEN "start" ELSE IF Bit(w, 9) THEN "stop" ELSE "none"
CmdRaw(c) == CASE c = "start" -> 256 [] c = "stop" -> 512 [] c = "none" -> 0

-----------------------------------------------------------------------------
(* Decoding of a module's own input / output bytes bs into values.            *)
W(bs, k) == bs[2 * k - 1] + 256 * bs[2 * k]       \* k-th word
BitsIn(bs, n) == [i \in 1..n |->
                    [b |-> Bit(bs[1 + (i - 1) \div 8], (i - 1) % 8)]]
SilIn(bs) == [si |-> <<Bit(bs[1], 0), Bit(bs[1], 2), Bit(bs[1], 3), Bit(bs[1], 4),
                       Bit(bs[1], 5), Bit(bs[2], 0), Bit(bs[2], 2)>>]
FcntInAt(bs, i) == [fi |-> [p |-> FcntPeriod(W(bs, 4 * i - 3), W(bs, 4 * i - 2)),
                            n |-> <<W(bs, 4 * i - 1), W(bs, 4 * i)>>,
                            a |-> Bit(W(bs, 8 + i), 8)]]
FcntOutAt(bs, i) == [fo |-> [p |-> FcntPreset(W(bs, 2 * i - 1), W(bs, 2 * i)),
                             c |-> CmdOf(W(bs, 4 + i))]]

DecodeIn(t, cf, bs) ==
  CASE t \in DIs -> BitsIn(bs, Chan(t))
    [] t \in AIs -> [i \in 1..Chan(t) |-> AnalogIn(W(bs, i), cf.ch[i].rg, cf.ch[i].fm)]
    [] t = FCNT -> <<FcntInAt(bs, 1), FcntInAt(bs, 2)>>
    [] t = SIL -> <<SilIn(bs)>>
    [] t = COM -> <<[ci |-> ParseIn(bs)]>>
DecodeOut(t, cf, bs) ==
  CASE t \in DOs -> BitsIn(bs, Chan(t))
    [] t \in AOs -> [i \in 1..4 |-> AnalogIn(W(bs, i), cf.ch[i].rg, cf.ch[i].fm)]
    [] t = FCNT -> <<FcntOutAt(bs, 1), FcntOutAt(bs, 2)>>
    [] t = COM -> <<[co |-> ParseOut(bs)]>>
DecodeOk(t, bs) == t = COM => TelegramOk(bs)

\* Can the values be encoded?
ValueOk(t, v) ==
  CASE t \in DOs -> IsBit(v) \/ IsDisabled(v)
    [] t \in AOs -> IsDec(v) \/ IsDisabled(v) \/ IsAna(v)
    [] t = FCNT -> IsDisabled(v) \/ (IsFcntOut(v) /\ PresetOk(v.fo.p))
    [] t = COM -> IsComOut(v)
EncodeOk(t, cf, vs) ==
  /\ Len(vs) = Chan(t)
  /\ \A i \in DOMAIN vs : ValueOk(t, vs[i])
  /\ t = COM => PackOk(vs[1].co, cf.len)

BitOf(v) == IF IsBit(v) THEN v.b ELSE FALSE

\* bs (the module's own output bytes) is an encoding of the values vs:
\* the set of channels (0 = unused bits) for which it is not.
BadChannels(t, cf, vs, bs) ==
  CASE t \in DOs ->
         {i \in 1..Chan(t) : Bit(bs[1 + (i - 1) \div 8], (i - 1) % 8) # BitOf(vs[i])}
         \cup (IF Chan(t) = 4 /\ bs[1] > 15 THEN {0} ELSE {})
    [] t \in AOs ->
         {i \in 1..4 : ~AnalogOutOk(vs[i], W(bs, i), cf.ch[i].rg, cf.ch[i].fm)}
    [] t = FCNT ->
         {i \in 1..2 :
            LET raw == <<W(bs, 2 * i - 1), W(bs, 2 * i), W(bs, 4 + i)>>
            IN IF IsDisabled(vs[i]) THEN raw # <<0, 0, 0>>
               ELSE raw # PresetRaw(vs[i].fo.p) \o <<CmdRaw(vs[i].fo.c)>>}
    [] t = COM -> IF bs = PackOut(vs[1].co, cf.len) THEN {} ELSE {1}

\* A recorded value equals an expected one.
Matches(e, v) ==
  IF IsAna(e) THEN DecMatches(v, e.a, e.rg, e.fm)
  ELSE DOMAIN e = DOMAIN v /\ e = v
=============================================================================
