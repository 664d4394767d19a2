------------------------------ MODULE TraceSame ------------------------------
(* C22: what a coupler answers is a function of its own history.  Two couplers *)
(* A and B of the same configuration are told the same between two cycles, up  *)
(* to what does not matter: the order in which different outputs are set,      *)
(* values replaced before the next cycle, the order of writes to different     *)
(* serial modules, empty writes, reads of nothing, looking at values; and      *)
(* other couplers are at work in between.  The state are the two tales in      *)
(* normal form; wherever they agree, the answers must agree.                   *)
EXTENDS TraceBase
CONSTANT Checks
VARIABLES l, live, a, b, bad
vars == <<l, live, a, b, bad>>
ev == Trace[l]

Told == [set |-> {}, wr |-> <<>>]        \* since the last cycle
Sets(t, m, c, v) ==
  [t EXCEPT !.set = {p \in @ : ~(p.m = m /\ p.c = c)} \cup {[m |-> m, c |-> c, v |-> v]}]
Writes(t, m, y) == IF y = <<>> THEN t ELSE [t EXCEPT !.wr = Append(@, [m |-> m, y |-> y])]
For(t, m) == SelectSeq(t.wr, LAMBDA w : w.m = m)
Agree(s, t) ==
  /\ s.set = t.set
  /\ Len(s.wr) = Len(t.wr)
  /\ \A k \in DOMAIN s.wr : For(s, s.wr[k].m) = For(t, s.wr[k].m)

Init == l = 1 /\ live = FALSE /\ a = Told /\ b = Told /\ bad = {}
New == /\ ev.e = "new" /\ live' = (ev.r = "ok") /\ a' = Told /\ b' = Told /\ bad' = {}
Set == /\ ev.e = "set" /\ UNCHANGED <<live, b>> /\ bad' = {}
       /\ a' = IF ev.r = "ok" THEN Sets(a, ev.m, ev.c, ev.v) ELSE a
\* an output can be set at any time
BSet == /\ ev.e = "bset" /\ UNCHANGED <<live, a>> /\ bad' = If(ev.r = "ok", "same.set")
        /\ b' = IF ev.r = "ok" THEN Sets(b, ev.m, ev.c, ev.v) ELSE b
Wr == /\ ev.e = "wr" /\ UNCHANGED <<live, b>> /\ bad' = {}
      /\ a' = IF ev.r = "ok" THEN Writes(a, ev.m, ev.y) ELSE a
BWr == /\ ev.e = "bwr" /\ UNCHANGED <<live, a>> /\ bad' = If(ev.r = "ok", "same.write")
       /\ b' = IF ev.r = "ok" THEN Writes(b, ev.m, ev.y) ELSE b
Zero == ev.e = "zero" /\ bad' = If(ev.n = 0, "same.read") /\ UNCHANGED <<live, a, b>>
Rd == /\ ev.e = "rd" /\ UNCHANGED <<live, a, b>>
      /\ bad' = If(ev.y = ev.tw /\ ev.r = ev.rt, "same.read")
Cycle ==
  /\ ev.e = "cy" /\ UNCHANGED live /\ a' = Told /\ b' = Told
  /\ bad' = When(live,
       If(Agree(a, b), "driver")
       \cup If(ev.a.r = ev.b.r, "same.result")
       \cup If(ev.a.o = ev.b.o, "same.image")
       \cup If(ev.a.iv = ev.b.iv, "same.inputs")
       \cup If(ev.a.ov = ev.b.ov, "same.outputs"))
Crash == ev.e = "crash" /\ bad' = {"crash"} /\ UNCHANGED <<live, a, b>>
Next == l <= N /\ l' = l + 1 /\ (New \/ Crash \/ Set \/ BSet \/ Wr \/ BWr \/ Zero \/ Rd \/ Cycle)
Spec == Init /\ [][Next]_vars
Conforms == bad \cap Checks = {}
Consumed == TLCGet("stats").diameter - 1 = N
Shown == [l |-> l - 1, bad |-> bad]
=============================================================================
