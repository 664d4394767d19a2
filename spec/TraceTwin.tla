------------------------------ MODULE TraceTwin ------------------------------
(* C09: a coupler whose cycles are sometimes rejected (A) and its twin (B)    *)
(* that never sees a rejected cycle: B is given A's accepted cycles, A's      *)
(* serial writes, and those of A's other writes that were not discarded by a  *)
(* rejected value.  The two must be indistinguishable.                       *)
EXTENDS Coupler, TraceBase
CONSTANT Checks
VARIABLES l, live, s, seen, bad
vars == <<l, live, s, seen, bad>>
ev == Trace[l]
NoCoupler == [mods |-> <<>>, off |-> <<>>, conf |-> <<>>, pend |-> <<>>, host |-> <<>>,
              ltx |-> <<>>, iv |-> <<>>, ov |-> <<>>]
NothingSeen == [iv |-> <<>>, ov |-> <<>>]
Init == l = 1 /\ live = FALSE /\ s = NoCoupler /\ seen = NothingSeen /\ bad = {}

New == /\ ev.e = "new" /\ live' = (ev.r = "ok") /\ seen' = NothingSeen /\ bad' = {}
       /\ s' = IF live' THEN NewState(ev.mods, ev.offs, ev.par) ELSE NoCoupler
Set == /\ ev.e = "set" /\ bad' = {} /\ UNCHANGED <<live, seen>>
       /\ s' = IF live /\ ev.r = "ok" THEN SetOutput(s, ev.m + 1, ev.c + 1, ev.v) ELSE s
Wr == ev.e = "wr" /\ bad' = {} /\ UNCHANGED <<live, s, seen>>
\* both read the same bytes
Rd == /\ ev.e = "rd" /\ UNCHANGED <<live, s, seen>>
      /\ bad' = When(live, If(ev.y = ev.tw, "twin.read"))
Cycle ==
  /\ ev.e = "cy" /\ UNCHANGED live
  /\ IF ~live \/ ev.r = "panic" THEN bad' = {} /\ s' = s /\ seen' = seen
     ELSE IF ev.r = "err" THEN
       /\ bad' = If(ev.iv = seen.iv, "rej.inputs") \cup If(ev.ov = seen.ov, "rej.outputs")
            \* the driver must have taken the right writes from the twin
            \cup When(Class(s, ev.in, ev.out) # "ok",
                      If(ev.cause = Class(s, ev.in, ev.out), "driver"))
       /\ s' = IF ev.cause = "value" THEN RejectedValue(s) ELSE s
       /\ seen' = seen
     ELSE
       /\ bad' = If(ev.tw.r = "ok", "twin.result")
            \cup When(ev.tw.r = "ok",
              If(ev.o = ev.tw.o, "twin.image") \cup If(ev.iv = ev.tw.iv, "twin.inputs")
              \cup If(ev.ov = ev.tw.ov, "twin.outputs"))
       /\ s' = [s EXCEPT !.pend = <<>>]
       /\ seen' = [iv |-> ev.iv, ov |-> ev.ov]
Crash == ev.e = "crash" /\ bad' = {"crash"} /\ UNCHANGED <<live, s, seen>>
Next == l <= N /\ l' = l + 1 /\ (New \/ Crash \/ Set \/ Wr \/ Rd \/ Cycle)
Spec == Init /\ [][Next]_vars
Conforms == bad \cap Checks = {}
Consumed == TLCGet("stats").diameter - 1 = N
Shown == [l |-> l - 1, bad |-> bad]
=============================================================================
