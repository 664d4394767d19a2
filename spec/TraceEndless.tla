----------------------------- MODULE TraceEndless -----------------------------
(* Couplers that run for a very long time (C25): what a coupler keeps is       *)
(* bounded by the data that are in it, see Kept in SerialLink and MCCoupler.   *)
(* The specification keeps every byte written and not yet sent, every byte     *)
(* received and not yet read, the last values reported and at most one write   *)
(* per channel; an implementation may need some multiple of that and whatever  *)
(* a first phase of the run has shown that it needs in addition.              *)
EXTENDS TraceBase
CONSTANT Checks
VARIABLES l, first, peak, bad
vars == <<l, first, peak, bad>>

ev == Trace[l]
PerByte == 64        \* memory a byte in transit may cost
Slack == 4096        \* what a run may need later for the first time
Warm == 10           \* marks that show what it needs anyhow
Inside(e) == (e.written - e.taken) + (e.received - e.read)
Max(a, b) == IF a > b THEN a ELSE b

Init == l = 1 /\ first = <<>> /\ peak = 0 /\ bad = {}
Run == ev.e = "run" /\ first' = <<>> /\ peak' = 4 * ev.n + 100 /\ bad' = {}
Highest == IF first = <<>> THEN 0 ELSE first[Len(first)]
\* C01, C02: what was taken over and read is a prefix of what was written and
\* presented, the k-th byte being a function of k; and everything, in the end
Order(e) == If(e.wtx = 0 /\ e.taken <= e.written, "tx.order") \cup If(e.wrx = 0 /\ e.read <= e.received, "rx.order")
At == /\ ev.e = "at"
      /\ peak' = Max(peak, Inside(ev))
      /\ first' = IF Len(first) < Warm THEN Append(first, Max(Highest, ev.live)) ELSE first
      /\ bad' = If(Len(first) < Warm \/ ev.live <= 2 * Highest + Slack + PerByte * peak', "mem.kept")
                \cup Order(ev)
Drained == /\ ev.e = "drained" /\ UNCHANGED <<first, peak>>
           /\ bad' = Order(ev) \cup If(ev.taken >= ev.written, "tx.lost") \cup If(ev.read >= ev.received, "rx.lost")
\* nothing is left of a coupler that is gone
End == /\ ev.e = "end" /\ UNCHANGED <<first, peak>> /\ bad' = If(ev.live <= Slack, "mem.left")
Churn == ev.e = "churn" /\ first' = <<>> /\ peak' = 0 /\ bad' = {}
Made == /\ ev.e = "made" /\ UNCHANGED peak
        /\ first' = IF first = <<>> THEN <<ev.live>> ELSE first
        /\ bad' = If(first = <<>> \/ ev.live <= first[1] + Slack, "mem.left")
Crash == ev.e = "crash" /\ bad' = {"crash"} /\ UNCHANGED <<first, peak>>
Next == l <= N /\ l' = l + 1 /\ (Run \/ At \/ Drained \/ End \/ Churn \/ Made \/ Crash)
Spec == Init /\ [][Next]_vars
Conforms == bad \cap Checks = {}
Consumed == TLCGet("stats").diameter - 1 = N
Shown == [l |-> l - 1, bad |-> bad]
=============================================================================
