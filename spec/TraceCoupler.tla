----------------------------- MODULE TraceCoupler -----------------------------
(* Trace specification of recorded coupler sessions.  The state machine is    *)
(* Coupler.tla; the recorded results are compared with what it allows.        *)
EXTENDS Faults, TraceBase

CONSTANT Checks       \* the aspects that count

VARIABLES l,      \* next event
          live,   \* a coupler exists
          s,      \* its state in the specification
          bad     \* aspects in which the last event deviates
vars == <<l, live, s, bad>>

ev == Trace[l]
NoCoupler == [mods |-> <<>>, off |-> <<>>, conf |-> <<>>, pend |-> <<>>, host |-> <<>>,
              ltx |-> <<>>, iv |-> <<>>, ov |-> <<>>]

Init == l = 1 /\ live = FALSE /\ s = NoCoupler /\ bad = {}

-----------------------------------------------------------------------------
New ==
  /\ ev.e = "new"
  /\ LET ok == NewOk(ev.mods, ev.offs, ev.par)
         t == NewState(ev.mods, ev.offs, ev.par)
         n == Len(ev.mods)
     IN /\ live' = (ev.r = "ok" /\ ok)
        /\ s' = IF live' THEN t ELSE NoCoupler
        /\ bad' = If(ev.r # "panic", "panic")
             \cup If(ok \/ ev.r # "ok", "new.accepted")
             \cup If(~ok \/ ev.r \in {"ok", "panic"}, "new.refused")
             \cup If(~ParamError(ev.mods, ev.offs, ev.par) \/ ev.r \in {"ChannelParameter", "ok", "panic"},
                     "new.kind")
             \cup If(ev.r \in {"ok", "panic"} \/ Named(ev.r, NewFaults(ev.mods, ev.offs, ev.par)), "err.new")
             \cup When(live',
                  If(ev.rd = [i \in 1..(n + 2) |-> i <= n /\ ev.mods[i] = COM], "new.reader")
                  \cup If(ev.wr = [i \in 1..(n + 2) |-> i <= n /\ ev.mods[i] = COM], "new.writer"))

Set ==
  /\ ev.e = "set"
  /\ LET m == ev.m + 1  c == ev.c + 1  ok == ValidAddr(s, m, c)
     IN /\ s' = IF live /\ ok /\ ev.r = "ok" THEN SetOutput(s, m, c, ev.v) ELSE s
        /\ bad' = When(live, If(ev.r # "panic", "panic")
                   \cup If(ev.r = "err" \/ ok, "set.accepted")
                   \cup If(ev.r = "ok" \/ ~ok, "set.refused")
                   \cup If(ev.r # "err" \/ ~Has(ev, "k") \/ ev.k = "Address", "err.set"))
  /\ UNCHANGED live

\* Serial data is the subject of TraceLink; here a writer call only has to succeed.
Wr ==
  /\ ev.e = "wr"
  /\ bad' = When(live, If(ev.r # "panic", "panic") \cup If(ev.r # "err", "wr.refused"))
  /\ UNCHANGED <<live, s>>
Rd ==
  /\ ev.e = "rd"
  /\ bad' = When(live, If(ev.r # "panic", "panic") \cup If(ev.r \in {"ok", "panic"}, "rd.result")
                 \cup If(Len(ev.y) <= ev.k, "rd.length"))
  /\ UNCHANGED <<live, s>>

-----------------------------------------------------------------------------
\* Which kind of value a module reports: names the aspect of a mismatch.
Kind(t) == IF t = COM THEN "com" ELSE IF t \in AIs \cup AOs THEN "analog" ELSE "digital"

ValueBad(prefix, t, exp, obs) ==
  IF Len(exp) # Len(obs) THEN {prefix \o "count"}
  ELSE If(\A k \in DOMAIN exp : Matches(exp[k], obs[k]), prefix \o Kind(t))

InBad(e) ==
  IF Len(e.iv) # Len(s.mods) THEN {"iv.count"}
  ELSE UNION {
    IF ~HasIn(s, i) THEN If(e.iv[i] = EmptyValues(s, i), "iv.empty")
    ELSE IF s.mods[i] = COM THEN If(e.iv[i] = ComInReport(ComIn(s, i, e.in)), "iv.com")
    ELSE ValueBad("iv.", s.mods[i], InValues(s, i, e.in), e.iv[i])
    : i \in DOMAIN s.mods}
OutBad(e) ==
  IF Len(e.ov) # Len(s.mods) THEN {"ov.count"}
  ELSE UNION {
    IF ~HasOut(s, i) THEN If(e.ov[i] = EmptyValues(s, i), "ov.empty")
    ELSE IF s.mods[i] = COM THEN If(e.ov[i] = ComOutReport(s, i, ComOut(s, i, e.out)), "ov.com")
    ELSE ValueBad("ov.", s.mods[i], OutValues(s, i, e.out), e.ov[i])
    : i \in DOMAIN s.mods}

\* the module's bytes in the returned image
Drives(i, e) ==
  LET bs == OutSlice(s, i, e.o)
      t == s.mods[i]
  IN IF t = COM THEN
       If(TelegramOk(bs) /\ bs[2] <= s.conf[i].len - 2
          /\ bs = PackOut(ParseOut(bs), s.conf[i].len), "o.telegram")
     ELSE LET wrong == BadChannels(t, s.conf[i], NextValues(s, i, e.out), bs)
          IN {IF c = 0 THEN "o.unused" ELSE IF Pending(s, i, c) THEN "o.pend"
              ELSE IF s.pend = <<>> THEN "o.keep" ELSE "o.other" : c \in wrong}
Gaps(e) ==
  LET owned == UNION {LET b == ByteOf(OutOff(s.off, i), OutBase) IN b..(b + NOut(s, i) - 1)
                      : i \in {k \in DOMAIN s.mods : HasOut(s, k)}}
  IN \A b \in 0..(2 * Len(e.o) - 1) : b \in owned \/ ImgByte(e.o, b) = 0

ImageBad(e) ==
  IF Len(e.o) # ImageLen(Spans(s)) THEN {"o.len"}
  ELSE (UNION {Drives(i, e) : i \in {k \in DOMAIN s.mods : HasOut(s, k)}})
       \cup If(Gaps(e), "o.gap")

Cycle ==
  /\ ev.e = "cy"
  /\ IF ~live THEN bad' = {} /\ s' = s
     ELSE IF ~(Regular(s) /\ (Packed(Spans(s)) \/ ~CanAssemble(Spans(s)))) THEN
       \* nothing is claimed for the values of such a configuration
       /\ bad' = If(ev.r # "panic", "panic")
                \cup If(ev.r # "ok" \/ ~Unreadable(s, ev.in, ev.out), "cy.accepted.image")
       /\ s' = s
     ELSE LET cls == Class(s, ev.in, ev.out) IN
       /\ s' = IF ev.r = "ok" THEN (IF cls = "ok" THEN Accepted(s, ev.in, ev.out) ELSE s)
               ELSE IF cls = "value" THEN RejectedValue(s) ELSE s
       /\ bad' = If(ev.r # "panic", "panic")
            \cup If(~(cls = "image" /\ ev.r = "ok"), "cy.accepted.image")
            \cup If(~(cls = "value" /\ ev.r = "ok"), "cy.accepted.value")
            \cup If(~(cls = "ok" /\ ev.r # "ok"), "cy.refused")
            \cup When(ev.r = "err", If(Named(ev.k, CycleFaults(s, ev.in, ev.out)), "err.cycle"))
            \cup When(cls = "ok" /\ ev.r = "ok", InBad(ev) \cup OutBad(ev) \cup ImageBad(ev))
  /\ UNCHANGED live

\* Repetitions of the last cycle, perhaps with writes of what is there, or
\* refused cycles: all with the same result (the driver stops at the first that
\* differs and records it).
Idle == ev.e = "idle" /\ bad' = {} /\ UNCHANGED <<live, s>>
Crash == ev.e = "crash" /\ bad' = {"crash"} /\ UNCHANGED <<live, s>>
Next == l <= N /\ l' = l + 1 /\ (New \/ Idle \/ Crash \/ Set \/ Wr \/ Rd \/ Cycle)
Spec == Init /\ [][Next]_vars

Conforms == bad \cap Checks = {}
Consumed == TLCGet("stats").diameter - 1 = N
Shown == [l |-> l - 1, bad |-> bad]
=============================================================================
