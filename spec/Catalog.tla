------------------------------- MODULE Catalog -------------------------------
(* The module catalogue of the u-remote system as far as the library names   *)
(* it: identification (high word, low word), category and channel count.    *)
EXTENDS Words, FiniteSets

Types == <<
  [n |-> "UR20_4DI_P",                id |-> <<\h0009, \h1F84>>,  cat |-> "DI",   ch |-> 4],
  [n |-> "UR20_4DI_P_3W",             id |-> <<\h001B, \h1F84>>,  cat |-> "DI",   ch |-> 4],
  [n |-> "UR20_8DI_P_2W",             id |-> <<\h0013, \h1FC1>>,  cat |-> "DI",   ch |-> 8],
  [n |-> "UR20_8DI_P_3W",             id |-> <<\h000A, \h1FC1>>,  cat |-> "DI",   ch |-> 8],
  [n |-> "UR20_8DI_P_3W_HD",          id |-> <<\h0003, \h1FC1>>,  cat |-> "DI",   ch |-> 8],
  [n |-> "UR20_16DI_P",               id |-> <<\h0004, \h9FC2>>,  cat |-> "DI",   ch |-> 16],
  [n |-> "UR20_16DI_P_PLC_INT",       id |-> <<\h0005, \h9FC2>>,  cat |-> "DI",   ch |-> 16],
  [n |-> "UR20_2DI_P_TS",             id |-> <<\h0F01, \h4700>>,  cat |-> "DI",   ch |-> 2],
  [n |-> "UR20_4DI_P_TS",             id |-> <<\h0F02, \h4700>>,  cat |-> "DI",   ch |-> 4],
  [n |-> "UR20_4DI_N",                id |-> <<\h0001, \h1F84>>,  cat |-> "DI",   ch |-> 4],
  [n |-> "UR20_8DI_N_3W",             id |-> <<\h0002, \h1FC1>>,  cat |-> "DI",   ch |-> 8],
  [n |-> "UR20_16DI_N",               id |-> <<\h000C, \h9FC2>>,  cat |-> "DI",   ch |-> 16],
  [n |-> "UR20_16DI_N_PLC_INT",       id |-> <<\h000D, \h9FC2>>,  cat |-> "DI",   ch |-> 16],
  [n |-> "UR20_4DI_2W_230V_AC",       id |-> <<\h0016, \h9F84>>,  cat |-> "DI",   ch |-> 4],
  [n |-> "UR20_4DO_P",                id |-> <<\h0101, \h2FA0>>,  cat |-> "DO",   ch |-> 4],
  [n |-> "UR20_4DO_P_2A",             id |-> <<\h0105, \h2FA0>>,  cat |-> "DO",   ch |-> 4],
  [n |-> "UR20_4DO_PN_2A",            id |-> <<\h0115, \h2FC8>>,  cat |-> "DO",   ch |-> 4],
  [n |-> "UR20_8DO_P",                id |-> <<\h0102, \h2FC8>>,  cat |-> "DO",   ch |-> 8],
  [n |-> "UR20_8DO_P_2W_HD",          id |-> <<\h0119, \h2FC8>>,  cat |-> "DO",   ch |-> 8],
  [n |-> "UR20_16DO_P",               id |-> <<\h0103, \hAFD0>>,  cat |-> "DO",   ch |-> 16],
  [n |-> "UR20_16DO_P_PLC_INT",       id |-> <<\h0104, \hAFD0>>,  cat |-> "DO",   ch |-> 16],
  [n |-> "UR20_4DO_N",                id |-> <<\h010A, \h2FA0>>,  cat |-> "DO",   ch |-> 4],
  [n |-> "UR20_4DO_N_2A",             id |-> <<\h010B, \h2FA0>>,  cat |-> "DO",   ch |-> 4],
  [n |-> "UR20_8DO_N",                id |-> <<\h010C, \h2FC8>>,  cat |-> "DO",   ch |-> 8],
  [n |-> "UR20_16DO_N",               id |-> <<\h010D, \hAFD0>>,  cat |-> "DO",   ch |-> 16],
  [n |-> "UR20_16DO_N_PLC_INT",       id |-> <<\h010E, \hAFD0>>,  cat |-> "DO",   ch |-> 16],
  [n |-> "UR20_4RO_SSR_255",          id |-> <<\h0107, \h2FA0>>,  cat |-> "DO",   ch |-> 4],
  [n |-> "UR20_4RO_CO_255",           id |-> <<\h0106, \h2FA0>>,  cat |-> "DO",   ch |-> 4],
  [n |-> "UR20_2PWM_PN_0_5A",         id |-> <<\h0908, \h4880>>,  cat |-> "PWM",  ch |-> 2],
  [n |-> "UR20_2PWM_PN_2A",           id |-> <<\h0909, \h4880>>,  cat |-> "PWM",  ch |-> 2],
  [n |-> "UR20_4AI_UI_16",            id |-> <<\h0401, \h15C4>>,  cat |-> "AI",   ch |-> 4],
  [n |-> "UR20_4AI_UI_16_DIAG",       id |-> <<\h0402, \h1544>>,  cat |-> "AI",   ch |-> 4],
  [n |-> "UR20_4AI_UI_DIF_16_DIAG",   id |-> <<\h041E, \h1544>>,  cat |-> "AI",   ch |-> 4],
  [n |-> "UR20_4AI_UI_16_HD",         id |-> <<\h0413, \h15C4>>,  cat |-> "AI",   ch |-> 4],
  [n |-> "UR20_4AI_UI_16_DIAG_HD",    id |-> <<\h0414, \h1544>>,  cat |-> "AI",   ch |-> 4],
  [n |-> "UR20_4AI_UI_12",            id |-> <<\h0411, \h15C4>>,  cat |-> "AI",   ch |-> 4],
  [n |-> "UR20_8AI_I_16_HD",          id |-> <<\h0404, \h15C5>>,  cat |-> "AI",   ch |-> 8],
  [n |-> "UR20_8AI_I_16_DIAG_HD",     id |-> <<\h0405, \h1545>>,  cat |-> "AI",   ch |-> 8],
  [n |-> "UR20_8AI_I_PLC_INT",        id |-> <<\h0409, \h15C5>>,  cat |-> "AI",   ch |-> 8],
  [n |-> "UR20_4AI_R_HS_16_DIAG",     id |-> <<\h041C, \h1544>>,  cat |-> "AI",   ch |-> 4],
  [n |-> "UR20_2AI_SG_24_DIAG",       id |-> <<\h041B, \h356D>>,  cat |-> "AI",   ch |-> 2],
  [n |-> "UR20_3EM_230V_AC",          id |-> <<\h0418, \h356D>>,  cat |-> "AI",   ch |-> 8],
  [n |-> "UR20_4AO_UI_16",            id |-> <<\h0502, \h25E0>>,  cat |-> "AO",   ch |-> 4],
  [n |-> "UR20_4AO_UI_16_M",          id |-> <<\h0506, \h25E0>>,  cat |-> "AO",   ch |-> 4],
  [n |-> "UR20_4AO_UI_16_DIAG",       id |-> <<\h0501, \h2560>>,  cat |-> "AO",   ch |-> 4],
  [n |-> "UR20_4AO_UI_16_M_DIAG",     id |-> <<\h0505, \h2560>>,  cat |-> "AO",   ch |-> 4],
  [n |-> "UR20_4AO_UI_16_HD",         id |-> <<\h0504, \h25E0>>,  cat |-> "AO",   ch |-> 4],
  [n |-> "UR20_4AO_UI_16_DIAG_HD",    id |-> <<\h0503, \h2560>>,  cat |-> "AO",   ch |-> 4],
  [n |-> "UR20_1CNT_100_1DO",         id |-> <<\h08C1, \h3800>>,  cat |-> "CNT",  ch |-> 1],
  [n |-> "UR20_2CNT_100",             id |-> <<\h08C3, \h3800>>,  cat |-> "CNT",  ch |-> 2],
  [n |-> "UR20_1CNT_500",             id |-> <<\h08C4, \h3801>>,  cat |-> "CNT",  ch |-> 1],
  [n |-> "UR20_2FCNT_100",            id |-> <<\h0881, \h28EE>>,  cat |-> "CNT",  ch |-> 2],
  [n |-> "UR20_1SSI",                 id |-> <<\h09C1, \h7880>>,  cat |-> "COM",  ch |-> 1],
  [n |-> "UR20_1COM_232_485_422",     id |-> <<\h0E41, \h3FED>>,  cat |-> "COM",  ch |-> 1],
  [n |-> "UR20_1COM_SAI_PRO",         id |-> <<\h0BC1, \hE800>>,  cat |-> "COM",  ch |-> 1],
  [n |-> "UR20_4COM_IO_LINK",         id |-> <<\h0E81, \h276D>>,  cat |-> "COM",  ch |-> 4],
  [n |-> "UR20_4AI_RTD_DIAG",         id |-> <<\h0406, \h1544>>,  cat |-> "RTD",  ch |-> 4],
  [n |-> "UR20_4AI_TC_DIAG",          id |-> <<\h0407, \h1544>>,  cat |-> "TC",   ch |-> 4],
  [n |-> "UR20_PF_I",                 id |-> <<>>,                cat |-> "PF",   ch |-> 0],
  [n |-> "UR20_PF_O",                 id |-> <<>>,                cat |-> "PF",   ch |-> 0],
  [n |-> "UR20_PF_O_1DI_SIL",         id |-> <<\h1801, \h9F43>>,  cat |-> "PF",   ch |-> 0],
  [n |-> "UR20_PF_O_2DI_SIL",         id |-> <<\h1803, \h9F43>>,  cat |-> "PF",   ch |-> 0],
  [n |-> "UR20_PF_O_2DI_DELAY_SIL",   id |-> <<\h1802, \h9F43>>,  cat |-> "PF",   ch |-> 0]
>>

Categories == {"DI", "DO", "AI", "AO", "CNT", "PWM", "RTD", "TC", "COM", "RO", "PF"}

TypeNames == {Types[i].n : i \in DOMAIN Types}
RowOf == [n \in TypeNames |-> Types[CHOOSE i \in DOMAIN Types : Types[i].n = n]]
Chan(n) == RowOf[n].ch
CatOf(n) == RowOf[n].cat

Identified == {n \in TypeNames : RowOf[n].id # <<>>}
Ids == {RowOf[n].id : n \in Identified}
TypeOfId == [id \in Ids |-> CHOOSE n \in Identified : RowOf[n].id = id]

\* The types the library can drive.
SupportedSeq == <<"UR20_4DI_P", "UR20_8DI_P_2W", "UR20_4DO_P", "UR20_4DO_P_2A", "UR20_8DO_P",
  "UR20_16DO_P", "UR20_4RO_CO_255", "UR20_4AO_UI_16", "UR20_4AO_UI_16_DIAG",
  "UR20_4AI_RTD_DIAG", "UR20_4AI_UI_16_DIAG", "UR20_4AI_UI_12", "UR20_4AI_UI_16",
  "UR20_8AI_I_16_DIAG_HD", "UR20_4AI_TC_DIAG", "UR20_2FCNT_100",
  "UR20_1COM_232_485_422", "UR20_PF_O_1DI_SIL">>
Supported == RangeOf(SupportedSeq)

COM == "UR20_1COM_232_485_422"
SIL == "UR20_PF_O_1DI_SIL"
FCNT == "UR20_2FCNT_100"
DIs == {"UR20_4DI_P", "UR20_8DI_P_2W"}
DOs == {"UR20_4DO_P", "UR20_4DO_P_2A", "UR20_8DO_P", "UR20_16DO_P", "UR20_4RO_CO_255"}
AOs == {"UR20_4AO_UI_16", "UR20_4AO_UI_16_DIAG"}
UIs == {"UR20_4AI_UI_16_DIAG", "UR20_4AI_UI_12", "UR20_4AI_UI_16"}
AIs == UIs \cup {"UR20_8AI_I_16_DIAG_HD", "UR20_4AI_RTD_DIAG", "UR20_4AI_TC_DIAG"}

\* Number of bytes of process data; the serial module's depends on its
\* configured process data length (given as the number of bytes).
InBytes(n, comLen) ==
  CASE n \in DIs -> 1
    [] n = "UR20_8AI_I_16_DIAG_HD" -> 16
    [] n \in AIs \ {"UR20_8AI_I_16_DIAG_HD"} -> 8
    [] n = FCNT -> 20
    [] n = COM -> comLen
    [] n = SIL -> 4
    [] OTHER -> 0
OutBytes(n, comLen) ==
  CASE n = "UR20_16DO_P" -> 2
    [] n \in DOs \ {"UR20_16DO_P"} -> 1
    [] n \in AOs -> 8
    [] n = FCNT -> 12
    [] n = COM -> comLen
    [] OTHER -> 0

\* Number of values a module reports per direction.
ValuesIn(n) == IF n = SIL THEN 1 ELSE Chan(n)

\* --- names ---------------------------------------------------------------
UpperMap == [c \in {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q",
                    "r","s","t","u","v","w","x","y","z"} |->
   CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E"
     [] c = "f" -> "F" [] c = "g" -> "G" [] c = "h" -> "H" [] c = "i" -> "I" [] c = "j" -> "J"
     [] c = "k" -> "K" [] c = "l" -> "L" [] c = "m" -> "M" [] c = "n" -> "N" [] c = "o" -> "O"
     [] c = "p" -> "P" [] c = "q" -> "Q" [] c = "r" -> "R" [] c = "s" -> "S" [] c = "t" -> "T"
     [] c = "u" -> "U" [] c = "v" -> "V" [] c = "w" -> "W" [] c = "x" -> "X" [] c = "y" -> "Y"
     [] OTHER -> "Z"]
UpChar(c) == IF c \in DOMAIN UpperMap THEN UpperMap[c] ELSE c
RECURSIVE MapStr(_, _, _)
MapStr(s, i, dash) ==
  IF i > Len(s) THEN ""
  ELSE LET c == SubSeq(s, i, i)
           u == IF dash /\ c = "-" THEN "_" ELSE UpChar(c)
       IN u \o MapStr(s, i + 1, dash)
NormType(s) == MapStr(s, 1, TRUE)
NormCat(s) == MapStr(s, 1, FALSE)

ASSUME Cardinality(TypeNames) = Len(Types)
ASSUME Cardinality(Ids) = Cardinality(Identified)      \* identifications are unambiguous
ASSUME \A n \in TypeNames : RowOf[n].cat \in Categories
ASSUME Supported \subseteq TypeNames
=============================================================================
