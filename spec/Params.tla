-------------------------------- MODULE Params --------------------------------
(* Parameter blocks: which register of a block holds which parameter of the  *)
(* module or of a channel, and which register values are allowed.            *)
(* A parameter kind is either a sequence of names (an enumeration: register  *)
(* value k stands for the k+1st name) or one of the markers below.           *)
EXTENDS Catalog

Bool == <<"false", "true">>
Delay == <<"no", "us300", "ms3", "ms10", "ms20", "ms40">>
Format == <<"S5", "S7">>
UIRange == <<"mA0To20", "mA4To20", "V0To10", "VMinus10To10", "V0To5", "VMinus5To5",
             "V1To5", "V2To10", "Disabled">>
IRange == <<"mA0To20", "mA4To20", "Disabled">>
FreqSup == <<"Disabled", "Hz50", "Hz60", "Average16">>
TempUnit == <<"Celsius", "Fahrenheit", "Kelvin">>
RTDRange == <<"PT100", "PT200", "PT500", "PT1000", "NI100", "NI120", "NI200", "NI500",
              "NI1000", "Cu10", "R40", "R80", "R150", "R300", "R500", "R1000", "R2000",
              "R4000", "Disabled">>
Connection == <<"TwoWire", "ThreeWire", "FourWire">>
ConvTime == <<"ms240", "ms130", "ms80", "ms55", "ms43", "ms36">>
TCRange == <<"TC_Type_J", "TC_Type_K", "TC_Type_N", "TC_Type_R", "TC_Type_S", "TC_Type_T",
             "TC_Type_B", "TC_Type_C", "TC_Type_E", "TC_Type_L", "TC_Type_U",
             "uVPlusMinus15625", "uVPlusMinus31250", "uVPlusMinus62500", "mVPlusMinus125",
             "mVPlusMinus250", "mVPlusMinus500", "VPlusMinus1", "VPlusMinus2", "Disabled">>
ColdJunction == <<"Internal", "ExternalChannel0", "ExternalChannel1", "ExternalChannel2",
                  "ExternalChannel3">>
Filter == <<"us5", "us11", "us21", "us43", "us83", "us167", "us333", "us667", "ms1", "ms3",
            "ms5", "ms11", "ms22", "ms43", "ms91", "ms167", "ms333">>
PdLen == <<"EightBytes", "SixteenBytes">>
OpMode == <<"Disabled", "RS232", "RS485", "RS422">>
Baud == <<"Baud_300", "Baud_600", "Baud_1200", "Baud_2400", "Baud_4800", "Baud_9600",
          "Baud_14400", "Baud_19200", "Baud_28800", "Baud_38400", "Baud_57600", "Baud_115200">>
Stop == <<"OneBit", "TwoBits">>
Par == <<"None", "Even", "Odd">>
Flow == <<"None", "CTS_RTS", "XON_XOFF">>
Bits == <<"SevenBits", "EightBits">>

E(names) == [k |-> "enum", names |-> names]
Int16 == [k |-> "i16", names |-> <<>>]     \* signed limit value, every word allowed
Char8 == [k |-> "char", names |-> <<>>]    \* 0..255
Subst == [k |-> "subst", names |-> <<>>]   \* substitute value, raw word of the channel's range

\* [m |-> kinds of the module registers, c |-> kinds of a channel's registers,
\*  n |-> number of channels, exact |-> surplus registers are refused]
LayoutOf(t) ==
  CASE t \in DIs -> [m |-> <<>>, c |-> <<E(Delay)>>, n |-> Chan(t), exact |-> FALSE]
    [] t \in DOs \ {"UR20_16DO_P"} -> [m |-> <<>>, c |-> <<E(Bool)>>, n |-> Chan(t), exact |-> FALSE]
    [] t = "UR20_16DO_P" -> [m |-> <<>>, c |-> <<>>, n |-> 0, exact |-> TRUE]
    [] t = SIL -> [m |-> <<>>, c |-> <<>>, n |-> 0, exact |-> TRUE]
    [] t = "UR20_4AO_UI_16" ->
         [m |-> <<>>, c |-> <<E(Format), E(UIRange), Subst>>, n |-> 4, exact |-> FALSE]
    [] t = "UR20_4AO_UI_16_DIAG" ->
         [m |-> <<>>, c |-> <<E(Format), E(UIRange), Subst, E(Bool)>>, n |-> 4, exact |-> FALSE]
    [] t = "UR20_4AI_RTD_DIAG" ->
         [m |-> <<E(TempUnit)>>,
          c |-> <<E(RTDRange), E(Connection), E(ConvTime), E(Bool), E(Bool), Int16, Int16>>,
          n |-> 4, exact |-> FALSE]
    [] t = "UR20_4AI_TC_DIAG" ->
         [m |-> <<E(TempUnit)>>,
          c |-> <<E(TCRange), E(ColdJunction), E(ConvTime), E(Bool), E(Bool), Int16, Int16>>,
          n |-> 4, exact |-> FALSE]
    [] t = "UR20_4AI_UI_16_DIAG" ->
         [m |-> <<E(FreqSup)>>, c |-> <<E(Bool), E(Bool), E(Bool), E(Format), E(UIRange)>>,
          n |-> 4, exact |-> FALSE]
    [] t \in {"UR20_4AI_UI_12", "UR20_4AI_UI_16"} ->
         [m |-> <<E(FreqSup)>>, c |-> <<E(Format), E(UIRange)>>, n |-> 4, exact |-> FALSE]
    [] t = "UR20_8AI_I_16_DIAG_HD" ->
         [m |-> <<E(FreqSup)>>, c |-> <<E(Bool), E(Bool), E(Format), E(IRange)>>,
          n |-> 8, exact |-> FALSE]
    [] t = FCNT -> [m |-> <<>>, c |-> <<E(Filter)>>, n |-> 2, exact |-> FALSE]
    [] t = COM ->
         [m |-> <<E(PdLen)>>,
          c |-> <<E(OpMode), E(Baud), E(Stop), E(Par), E(Flow), E(Bits), E(Bool), Char8, Char8>>,
          n |-> 1, exact |-> FALSE]

Layout == [t \in Supported |-> LayoutOf(t)]

\* Number of parameter registers of a module.
RegCount(t) == Len(Layout[t].m) + Layout[t].n * Len(Layout[t].c)

LengthOk(t, block) ==
  IF Layout[t].exact THEN Len(block) = RegCount(t) ELSE Len(block) >= RegCount(t)

Allowed(kind, w) ==
  CASE kind.k = "enum" -> w < Len(kind.names)
    [] kind.k = "char" -> w <= 255
    [] OTHER -> TRUE

ModReg(t, block, j) == block[j]
ChReg(t, block, i, j) == block[Len(Layout[t].m) + (i - 1) * Len(Layout[t].c) + j]

ParamsOk(t, block) ==
  /\ \A j \in 1..Len(Layout[t].m) : Allowed(Layout[t].m[j], ModReg(t, block, j))
  /\ \A i \in 1..Layout[t].n : \A j \in 1..Len(Layout[t].c) :
        Allowed(Layout[t].c[j], ChReg(t, block, i, j))

\* "length" | "param" | "ok"
Verdict(t, block) ==
  IF ~LengthOk(t, block) THEN "length"
  ELSE IF ~ParamsOk(t, block) THEN "param" ELSE "ok"

Name(kind, w) == kind.names[w + 1]

\* The register of the named channel parameter (first of that kind).
KindAt(t, names) == CHOOSE j \in DOMAIN Layout[t].c : Layout[t].c[j].names = names
HasKind(t, names) == \E j \in DOMAIN Layout[t].c : Layout[t].c[j].names = names

RangesOf(t) == CASE t \in AOs \cup UIs -> UIRange
                 [] t = "UR20_8AI_I_16_DIAG_HD" -> IRange
                 [] t = "UR20_4AI_RTD_DIAG" -> RTDRange
                 [] t = "UR20_4AI_TC_DIAG" -> TCRange

\* The parameters a module has before it is configured (as register values):
\* per type the module registers and the registers of every channel.
Nr(names, name) == (CHOOSE j \in DOMAIN names : names[j] = name) - 1
UIOff == Nr(UIRange, "Disabled")
S7 == Nr(Format, "S7")
DefaultRegs(t) ==
  CASE t \in DIs -> [m |-> <<>>, c |-> <<Nr(Delay, "ms3")>>]
    [] t \in DOs \ {"UR20_16DO_P"} -> [m |-> <<>>, c |-> <<0>>]
    [] t \in {"UR20_16DO_P", SIL} -> [m |-> <<>>, c |-> <<>>]
    [] t = "UR20_4AO_UI_16" -> [m |-> <<>>, c |-> <<S7, UIOff, 0>>]
    [] t = "UR20_4AO_UI_16_DIAG" -> [m |-> <<>>, c |-> <<S7, UIOff, 0, 0>>]
    [] t = "UR20_4AI_RTD_DIAG" ->
         [m |-> <<Nr(TempUnit, "Celsius")>>,
          c |-> <<Nr(RTDRange, "Disabled"), Nr(Connection, "TwoWire"), Nr(ConvTime, "ms80"), 0, 0, 0, 0>>]
    [] t = "UR20_4AI_TC_DIAG" ->
         [m |-> <<Nr(TempUnit, "Celsius")>>,
          c |-> <<Nr(TCRange, "Disabled"), Nr(ColdJunction, "Internal"), Nr(ConvTime, "ms80"), 0, 0,
                  32767, 32768>>]
    [] t = "UR20_4AI_UI_16_DIAG" -> [m |-> <<Nr(FreqSup, "Disabled")>>, c |-> <<0, 0, 0, S7, UIOff>>]
    [] t \in {"UR20_4AI_UI_12", "UR20_4AI_UI_16"} -> [m |-> <<Nr(FreqSup, "Disabled")>>, c |-> <<S7, UIOff>>]
    [] t = "UR20_8AI_I_16_DIAG_HD" ->
         [m |-> <<Nr(FreqSup, "Disabled")>>, c |-> <<0, 0, S7, Nr(IRange, "Disabled")>>]
    [] t = FCNT -> [m |-> <<>>, c |-> <<Nr(Filter, "us5")>>]
    [] t = COM ->
         [m |-> <<Nr(PdLen, "SixteenBytes")>>,
          c |-> <<Nr(OpMode, "Disabled"), Nr(Baud, "Baud_9600"), Nr(Stop, "OneBit"), Nr(Par, "None"),
                  Nr(Flow, "None"), Nr(Bits, "EightBits"), 0, 17, 19>>]
DefaultBlockOf(t) ==
  LET d == DefaultRegs(t)  n == Len(d.c) IN
  d.m \o [k \in 1..(n * Layout[t].n) |-> d.c[((k - 1) % n) + 1]]
DefaultBlock == [t \in Supported |-> DefaultBlockOf(t)]
ASSUME \A t \in Supported : Verdict(t, DefaultBlock[t]) = "ok"

\* What the process data codec needs of an accepted block: per channel the
\* range and the format, for the serial module the process data length.
Conf(t, block) ==
  IF t = COM THEN [len |-> IF block[1] = 0 THEN 8 ELSE 16]
  ELSE IF t \in AOs \cup AIs THEN
    [ch |-> [i \in 1..Layout[t].n |->
       [rg |-> Name([names |-> RangesOf(t)], ChReg(t, block, i, KindAt(t, RangesOf(t)))),
        fm |-> IF HasKind(t, Format)
               THEN Name([names |-> Format], ChReg(t, block, i, KindAt(t, Format)))
               ELSE "S5"]]]
  ELSE [none |-> TRUE]
=============================================================================
