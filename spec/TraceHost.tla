------------------------------ MODULE TraceHost ------------------------------
(* Trace specification of the bare message processor: what SerialHost says of *)
(* one step holds for every telegram it is given and every image it is given, *)
(* also for such as a conforming module would never present.  The cut of the  *)
(* byte stream into segments is left open.                                    *)
EXTENDS SerialHost, TraceBase
CONSTANT Checks
VARIABLES l, h, todo, due, bad
\* h.outq is not used: the bytes still to be sent are kept in todo
vars == <<l, h, todo, due, bad>>
ev == Trace[l]
Init == l = 1 /\ h = HostInit(8) /\ todo = <<>> /\ due = <<>> /\ bad = {}

New == /\ ev.e = "new" /\ h' = HostInit(ev.len) /\ todo' = <<>> /\ due' = <<>> /\ bad' = {}
Write == /\ ev.e = "wr" /\ todo' = todo \o ev.y /\ bad' = If(ev.r = "ok", "tx.write")
         /\ UNCHANGED <<h, due>>

Step ==
  LET ci == ev.ci  co == ev.co  n == ev.n
      rest == HostOut(h, ci, co)          \* the step without a segment
      sent == <<n.tx, n.d>> # <<co.tx, co.d>>
  IN
  /\ ev.e = "nx"
  /\ h' = HostAfter(h, ci, co)
  /\ todo' = IF h.st = "done" /\ sent THEN Drop(todo, Min(Len(n.d), Len(todo))) ELSE todo
  /\ due' = IF Fetches(h, ci) THEN due \o ci.d ELSE due
  /\ bad' =
       If(ev.r = "ok", "panic") \cup When(ev.r = "ok",
         If(n.ra = ci.rx, "win.mirror")
         \cup CASE h.st = "clear" ->
                     If(n.rf /\ n.tf /\ ~n.rst, "start.flush")
                [] h.st = "reset" -> If(~n.rf /\ ~n.tf /\ n.rst, "start.reset")
                [] OTHER ->
                     If(<<n.rf, n.tf, n.hw, n.rst>> = <<co.rf, co.tf, co.hw, co.rst>>, "win.flags")
                     \cup If(<<n.rf, n.tf, n.rst>> = <<co.rf, co.tf, co.rst>>, "start.once")
                     \cup When(sent,
                       If(co.tx # Inc(ci.ta), "win.open")
                       \cup If(n.tx = Inc(ci.ta), "win.successor")
                       \cup If(Len(n.d) \in 1..h.cap, "win.size")
                       \cup If(StartsWith(todo, n.d), "tx.placed"))
                     \cup When(~sent, If(n = rest, "win.kept"))
         \cup When(h.st # "done",
                If(n.d = <<>>, "start.payload") \cup If(n.tx = co.tx, "start.counter")
                \cup If(n.hw = co.hw, "start.hw") \cup If(n = rest, "start.rest")))

Read ==
  /\ ev.e = "rd"
  /\ bad' = If(ev.r = "ok" /\ ev.y = Take(due, ev.k), "rx.read")
       \cup When(h.st # "done", If(ev.y = <<>>, "start.read"))
  /\ due' = Drop(due, Min(Len(ev.y), Len(due)))
  /\ UNCHANGED <<h, todo>>

Crash == ev.e = "crash" /\ bad' = {"crash"} /\ UNCHANGED <<h, todo, due>>
Next == /\ l <= N /\ l' = l + 1
        /\ (New \/ Crash \/ Write \/ Step \/ Read)
Spec == Init /\ [][Next]_vars
Conforms == bad \cap Checks = {}
Consumed == TLCGet("stats").diameter - 1 = N
Shown == [l |-> l - 1, bad |-> bad]
=============================================================================
