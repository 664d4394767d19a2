----------------------------- MODULE TraceProduct -----------------------------
(* C05 and C08: a coupler is the product of its modules.  Every module also   *)
(* runs alone in a coupler of its own, behind images that consist of nothing  *)
(* but its own bytes; it gets the same writes and reads.  What the coupler     *)
(* reports for the module and puts into the module's bytes must be what the    *)
(* lone coupler reports and returns.                                         *)
EXTENDS Coupler, TraceBase
CONSTANT Checks
VARIABLES l, live, s, bad
vars == <<l, live, s, bad>>
ev == Trace[l]
NoCoupler == [mods |-> <<>>, off |-> <<>>, conf |-> <<>>, pend |-> <<>>, host |-> <<>>,
              ltx |-> <<>>, iv |-> <<>>, ov |-> <<>>]
Init == l = 1 /\ live = FALSE /\ s = NoCoupler /\ bad = {}

New == /\ ev.e = "new" /\ live' = (ev.r = "ok") /\ bad' = {}
       /\ s' = IF live' THEN NewState(ev.mods, ev.offs, ev.par) ELSE NoCoupler
Skip == ev.e \in {"set", "wr"} /\ bad' = {} /\ UNCHANGED <<live, s>>
Rd == /\ ev.e = "rd" /\ UNCHANGED <<live, s>>
      /\ bad' = When(live, If(ev.y = ev.tw, "com.read"))

Pad(bs) == WordsOf(bs)
Own(i, e) ==
  LET t == e.tw[i]
      k == IF s.mods[i] = COM THEN "com." ELSE "mod."
      given == /\ HasIn(s, i) => t.in = Pad(InSlice(s, i, e.in))
               /\ HasOut(s, i) => t.out = Pad(OutSlice(s, i, e.out))
  IN If(given, "driver")
     \cup If(t.r = "ok", k \o "alone")
     \cup When(t.r = "ok",
       If(i <= Len(e.iv) /\ e.iv[i] = t.iv, k \o "inputs")
       \cup If(i <= Len(e.ov) /\ e.ov[i] = t.ov, k \o "outputs")
       \cup When(HasOut(s, i) /\ 2 * Len(e.o) >= ByteOf(OutOff(s.off, i), OutBase) + NOut(s, i),
                 If(Pad(OutSlice(s, i, e.o)) = t.o, k \o "image")))
\* what is reported for a serial module follows from its own telegrams
Report(i, e) ==
  IF s.mods[i] # COM THEN {}
  ELSE If(i <= Len(e.iv) /\ e.iv[i] = ComInReport(ComIn(s, i, e.in)), "com.report.in")
       \cup If(i <= Len(e.ov) /\ e.ov[i] = ComOutReport(s, i, ComOut(s, i, e.out)), "com.report.out")
Empty(i, e) ==
  If(HasIn(s, i) \/ (i <= Len(e.iv) /\ e.iv[i] = EmptyValues(s, i)), "empty")
  \cup If(HasOut(s, i) \/ (i <= Len(e.ov) /\ e.ov[i] = EmptyValues(s, i)), "empty")
Owned == UNION {LET b == ByteOf(OutOff(s.off, i), OutBase) IN b..(b + NOut(s, i) - 1)
                : i \in {k \in DOMAIN s.mods : HasOut(s, k)}}
Cycle ==
  /\ ev.e = "cy" /\ UNCHANGED live
  /\ IF ~live \/ ev.r # "ok"
     THEN /\ s' = s
          /\ bad' = When(live, {"result"})      \* the driver only runs acceptable cycles
     ELSE
       /\ bad' = UNION {Own(i, ev) \cup Report(i, ev) \cup Empty(i, ev) : i \in DOMAIN s.mods}
            \cup If(Len(ev.o) = ImageLen(Spans(s)), "length")
            \cup If(\A b \in 0..(2 * Len(ev.o) - 1) : b \in Owned \/ ImgByte(ev.o, b) = 0, "gap")
            \cup If(Len(ev.iv) = Len(s.mods) /\ Len(ev.ov) = Len(s.mods), "count")
       /\ s' = [s EXCEPT !.ltx = [i \in DOMAIN s.ltx |-> ComOut(s, i, ev.out).tx]]
Crash == ev.e = "crash" /\ bad' = {"crash"} /\ UNCHANGED <<live, s>>
Next == l <= N /\ l' = l + 1 /\ (New \/ Crash \/ Skip \/ Rd \/ Cycle)
Spec == Init /\ [][Next]_vars
Conforms == bad \cap Checks = {}
Consumed == TLCGet("stats").diameter - 1 = N
Shown == [l |-> l - 1, bad |-> bad]
=============================================================================
