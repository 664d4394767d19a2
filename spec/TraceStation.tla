----------------------------- MODULE TraceStation -----------------------------
(* A whole station: a fieldbus coupler with its register map and the modules  *)
(* plugged into it.  The application sets the library up from the station's    *)
(* registers (module count, module list, offset table, parameter blocks) and  *)
(* then runs cycles, writing every returned image back.  What stands at the   *)
(* terminals of the station must be what was written last.                    *)
EXTENDS TraceCoupler
VARIABLES st,     \* the station: modules, offsets, parameter blocks
          want    \* per module the values its output terminals must show
all == <<vars, st, want>>

\* --- the register map -------------------------------------------------------
InputsAt == 0
OutputsAt == 2048      \* 0x0800
OutLengthAt == 4112    \* 0x1010
InLengthAt == 4113     \* 0x1011
IdAt == 4096           \* 0x1000
StatusAt == 4108       \* 0x100C
CountAt == 10238       \* 0x27FE
ListAt == 10752        \* 0x2A00
OffsetsAt == 11008     \* 0x2B00
ParamsAt == 49152      \* 0xC000, 256 registers per module
Register(x, a) ==
  LET n == Len(x.mods) IN
  IF a = CountAt THEN n
  ELSE IF a >= ListAt /\ a < ListAt + 2 * n
       THEN RowOf[x.mods[(a - ListAt) \div 2 + 1]].id[((a - ListAt) % 2) + 1]
  ELSE IF a >= OffsetsAt /\ a < OffsetsAt + 2 * n THEN x.offs[a - OffsetsAt + 1]
  ELSE IF a >= ParamsAt /\ a < ParamsAt + 256 * n
       THEN LET b == x.par[(a - ParamsAt) \div 256 + 1]  k == ((a - ParamsAt) % 256) + 1
            IN IF k <= Len(b) THEN b[k] ELSE 0
  ELSE 0
Block(x, i) == [k \in 1..RegCount(x.mods[i]) |-> Register(x, ParamsAt + 256 * (i - 1) + k - 1)]

SInit == Init /\ st = [mods |-> <<>>, offs |-> <<>>, par |-> <<>>] /\ want = <<>>

\* the addresses the library names
Map == /\ ev.e = "map" /\ UNCHANGED <<live, s, st, want>>
       /\ bad' = If(ev.a = <<InputsAt, OutputsAt, OutLengthAt, InLengthAt, IdAt, StatusAt,
                            CountAt, ListAt, OffsetsAt, ParamsAt>>, "st.map")
Station == /\ ev.e = "station" /\ bad' = {}
           /\ st' = [mods |-> ev.mods, offs |-> ev.offs, par |-> ev.par]
           /\ want' = <<>> /\ live' = FALSE /\ s' = NoCoupler
\* registers read by the application at the addresses the library names
Peek == /\ ev.e = "read" /\ UNCHANGED <<live, s, st, want>>
        /\ bad' = If(ev.w = [k \in DOMAIN ev.w |-> Register(st, ev.at + k - 1)], "driver")
\* what the library made of them
Setup == /\ ev.e = "setup" /\ UNCHANGED <<live, s, st, want>>
         /\ bad' = If(ev.r = "ok" /\ ev.mods = st.mods, "st.list")
              \cup If(ev.r # "ok" \/ ev.padr = [i \in DOMAIN st.mods |-> <<ParamsAt + 256 * (i - 1), RegCount(st.mods[i])>>],
                      "st.params")
SNew == /\ New /\ UNCHANGED st /\ want' = <<>>
Built == /\ ev.e = "built" /\ UNCHANGED <<live, s, st>>
         /\ bad' = If(live, "st.built")
              \cup When(live, If(s.mods = st.mods, "st.list")
                   \cup If(s.off = st.offs, "st.offsets")
                   \cup If(s.conf = [i \in DOMAIN st.mods |-> Conf(st.mods[i], Block(st, i))], "st.params"))
         /\ want' = IF live THEN [i \in DOMAIN s.mods |-> OutValues(s, i, ev.img)] ELSE <<>>

Terminals(i, w) == BadChannels(s.mods[i], s.conf[i], w[i], OutSlice(s, i, ev.o))
SCycle ==
  /\ Cycle /\ UNCHANGED st
  /\ want' = IF live /\ ev.r = "ok"
             THEN [i \in DOMAIN want |->
                     [c \in DOMAIN want[i] |-> IF Pending(s, i, c) THEN PendVal(s, i, c) ELSE want[i][c]]]
             ELSE want
\* the terminals, after the image was written to the station
Terminal ==
  /\ ev.e = "terminals" /\ UNCHANGED <<live, s, st, want>>
  /\ bad' = When(live,
       IF 2 * Len(ev.o) # 2 * ImageLen(Spans(s)) THEN {"st.terminal"}
       ELSE If(\A i \in DOMAIN s.mods : (HasOut(s, i) /\ s.mods[i] # COM) => Terminals(i, want) \subseteq {0},
               "st.terminal"))
SNext == /\ l <= N /\ l' = l + 1
         /\ \/ Map \/ Station \/ Peek \/ Setup \/ Built \/ Terminal \/ SNew \/ SCycle
            \/ (Crash \/ Set \/ Wr \/ Rd) /\ UNCHANGED <<st, want>>
SSpec == SInit /\ [][SNext]_all
=============================================================================
