------------------------------ MODULE TraceLink ------------------------------
(* Trace specification of recorded serial links: the real coupler runs        *)
(* against simulated modules whose every step is recorded and must be a step   *)
(* of SerialDevice.  Of the host only the properties are demanded, not a       *)
(* particular way to cut the byte stream into telegrams.                      *)
EXTENDS SerialDevice, Codec, TraceBase
CONSTANT Checks
VARIABLES l, live, lk, bad
(* lk[m], one record per serial module:                                      *)
(*  cap    capacity          dev  the module         img  its output telegram *)
(*  ours   img was produced by the host                                      *)
(*  cyc    accepted cycles so far (saturating at 3)                           *)
(*  setb   byte string waiting for the next cycle                            *)
(*  todo   bytes written and not yet placed in an image                      *)
(*  fly    bytes placed in an image and not yet taken over                   *)
(*  due    bytes that must be readable, opt: bytes that may come first,       *)
(*  ready  how many bytes of due the host has already seen                    *)
vars == <<l, live, lk, bad>>
ev == Trace[l]
Init == l = 1 /\ live = FALSE /\ lk = <<>> /\ bad = {}
M == ev.m + 1
Inc(c) == (c + 1) % 4

New ==
  /\ ev.e = "new" /\ live' = (ev.r = "ok")
  /\ bad' = If(ev.r = "ok", "new")
  /\ lk' = [i \in {ev.dev[k].m + 1 : k \in DOMAIN ev.dev} |->
      LET d == ev.dev[CHOOSE k \in DOMAIN ev.dev : ev.dev[k].m + 1 = i] IN
      [cap |-> d.len - 2,
       dev |-> [ack |-> d.ack, held |-> FALSE, rx |-> d.rx, used |-> d.used, av |-> d.av, hold |-> FALSE, d |-> d.d],
       img |-> ParseOut(d.img), ours |-> FALSE, cyc |-> 0,
       setb |-> <<>>, todo |-> <<>>, fly |-> <<>>,
       due |-> <<>>, opt |-> <<>>, late |-> 0, undec |-> FALSE]]

\* byte strings written through the writer are queued at once, those written
\* as an output with the next accepted cycle (the last one counts)
Write == /\ ev.e = "wr" /\ bad' = If(ev.r = "ok", "tx.write")
         /\ lk' = [lk EXCEPT ![M].todo = @ \o ev.y]
SetBytes == /\ ev.e = "set" /\ bad' = If(ev.r = "ok", "tx.write")
            /\ lk' = [lk EXCEPT ![M].setb = ev.v.y]

DevStep ==
  LET v == lk[M].dev  o == lk[M].img IN
  \/ /\ ev.e = "take"
     /\ LET k == lk[M]  d == o.d IN
        /\ bad' = If(CanTake(v, o), "driver")
             \* what is taken over is the next thing written
             \cup When(k.ours, If(StartsWith(k.fly, d), "tx.order"))
        /\ lk' = [lk EXCEPT ![M].dev = DoTake(@),
                            ![M].fly = IF k.ours THEN Drop(@, Min(Len(d), Len(@))) ELSE @]
  \/ /\ ev.e = "ack" /\ bad' = If(CanAck(v), "driver") /\ lk' = [lk EXCEPT ![M].dev = DoAck(@)]
  \/ /\ ev.e = "wd" /\ bad' = If(CanWithdraw(v, o), "driver")
     /\ lk' = [lk EXCEPT ![M].dev = DoWithdraw(@)]
  \/ /\ ev.e = "skip" /\ bad' = If(CanSkip(v, o), "driver")
     /\ lk' = [lk EXCEPT ![M].dev = DoSkip(@)]
  \/ /\ ev.e \in {"pres", "show"}
     /\ bad' = If(IF ev.e = "pres" THEN CanPresent(v, o) ELSE CanShow(v), "driver")
     /\ lk' = [lk EXCEPT ![M].dev = IF ev.e = "pres" THEN DoPresent(@, ev.d) ELSE DoShow(@, ev.d),
                         \* start-up takes two accepted cycles
                         ![M].due = IF lk[M].cyc >= 2 THEN @ \o ev.d ELSE @,
                         ![M].late = IF lk[M].cyc >= 2 THEN Len(ev.d) ELSE 0]

\* another client of the coupler changes flags in the standing image
Toggle == /\ ev.e = "fl" /\ bad' = If(lk[M].cyc >= 2, "driver")
          /\ lk' = [lk EXCEPT ![M].img.hw = ev.hw, ![M].img.rst = ev.rst]

Flags(o) == <<o.rf, o.tf, o.hw, o.rst>>

\* one serial module's part of an accepted cycle
Step(k, c) ==
  LET ci == ParseIn(c.i)
      co == ParseOut(c.o)
      ok == TelegramOk(c.n) /\ Len(c.n) = k.cap + 2
      n == ParseOut(c.n)
      todo == k.todo \o k.setb
      sent == <<n.tx, n.d>> # <<co.tx, co.d>>
      seen == /\ ci.av = k.dev.av /\ ci.rx = k.dev.rx /\ ci.ta = k.dev.ack
              /\ ci.av => ci.d = k.dev.d
      \* no segment is waiting for its acknowledge
      open == co.tx # Inc(ci.ta)
      newSeg == k.cyc >= 2 /\ sent
      fresh == \* the telegram standing at the end of start-up, presented before
        k.cyc = 2 /\ ci.av /\ ci.d # <<>> /\ k.due = <<>>
  IN [bad |->
       If(seen /\ co = k.img, "driver")
       \cup If(ok, "win.telegram")
       \cup When(ok,
         If(n.ra = ci.rx, "win.mirror")
         \cup When(k.cyc = 0, If(n.rf /\ n.tf /\ ~n.rst, "start.flush"))
         \cup When(k.cyc = 1, If(~n.rf /\ ~n.tf /\ n.rst, "start.reset"))
         \cup When(k.cyc < 2, If(n.d = <<>>, "start.payload") \cup If(n.tx = co.tx, "start.counter"))
         \cup When(k.cyc < 2, If(n.hw = co.hw, "start.hw"))
         \cup When(k.cyc >= 2,
           If(Flags(n) = Flags(co), "win.flags")
           \cup If(n.rf = co.rf /\ n.tf = co.tf /\ n.rst = co.rst, "start.once")
           \cup When(sent,
             If(open, "win.open")
             \cup If(n.tx = Inc(ci.ta), "win.successor")
             \cup If(Len(n.d) \in 1..k.cap, "win.size")
             \cup If(StartsWith(todo, n.d), "tx.placed"))
           \cup When(~sent /\ todo # <<>> /\ open, {"prog.tx"}))),
      lk |-> [k EXCEPT
        !.dev = Seen(@), !.img = n, !.ours = TRUE, !.cyc = Min(3, @ + 1), !.setb = <<>>,
        !.todo = IF newSeg THEN Drop(todo, Min(Len(n.d), Len(todo))) ELSE todo,
        \* bytes that get into the image must be taken over before the next ones
        !.fly = IF newSeg THEN @ \o n.d ELSE @,
        !.opt = IF fresh THEN ci.d ELSE @,
        !.undec = IF fresh THEN TRUE ELSE @,
        !.late = IF k.cyc >= 2 THEN 0 ELSE @]]

PartOf(i) == ev.c[CHOOSE k \in DOMAIN ev.c : ev.c[k].m + 1 = i]
Cycle ==
  /\ ev.e = "cy"
  /\ IF ev.r = "ok"
     THEN LET st == [i \in DOMAIN lk |-> Step(lk[i], PartOf(i))] IN
          /\ bad' = UNION {st[i].bad : i \in DOMAIN lk}
          /\ lk' = [i \in DOMAIN lk |-> st[i].lk]
     ELSE \* a rejected cycle; it must have been unacceptable
          bad' = If(ev.spoilt, "prog.cycle") /\ lk' = lk

\* Repetitions of the last cycle: same images, same result (the driver stops
\* at the first that differs and records it as a cycle).
Idle == ev.e = "idle" /\ lk' = lk /\ bad' = If(\A i \in DOMAIN lk : lk[i].cyc = 3, "driver")

\* Bytes read are the next due ones.  All of due except the telegram the host
\* has not seen yet (late) must be readable.
Read ==
  /\ ev.e = "rd"
  /\ LET k == lk[M]
         y == ev.y
         early == k.cyc < 3
         useOpt == k.undec /\ y # <<>> /\ k.opt # <<>> /\ y[1] = k.opt[1]
         exp == IF k.undec THEN (IF useOpt THEN k.opt \o k.due ELSE k.due)
                ELSE k.opt \o k.due
         avail == Len(exp) - k.late
         sure == Len(k.due) - k.late + (IF k.undec THEN 0 ELSE Len(k.opt))
         rest == Drop(exp, Min(Len(y), Len(exp)))
     IN /\ bad' = If(ev.r = "ok" /\ Len(y) <= ev.k, "rx.result")
             \cup If(StartsWith(exp, y), "rx.order")
             \cup If(Len(y) <= avail \/ ~StartsWith(exp, y), "rx.early")
             \cup When(early, If(y = <<>>, "start.read"))
             \cup If(y # <<>> \/ ev.k = 0 \/ early \/ sure <= 0, "prog.rx")
        /\ lk' = IF y = <<>> THEN lk
                 ELSE [lk EXCEPT
                   ![M].undec = FALSE,
                   ![M].opt = IF useOpt \/ ~k.undec THEN Take(rest, Max(0, Len(rest) - Len(k.due)))
                              ELSE <<>>,
                   ![M].due = Drop(rest, Max(0, Len(rest) - Len(k.due)))]

\* The driver lets the module respond promptly until nothing moves any more.
End ==
  /\ ev.e = "end" /\ lk' = lk
  /\ bad' = If(\A i \in DOMAIN lk : lk[i].todo = <<>> /\ lk[i].setb = <<>> /\ lk[i].fly = <<>>, "tx.lost")
       \cup If(\A i \in DOMAIN lk : lk[i].due = <<>> /\ (lk[i].undec \/ lk[i].opt = <<>>), "rx.lost")
       \cup If(\A i \in DOMAIN lk : lk[i].cyc = 3, "driver")

Crash == ev.e = "crash" /\ bad' = {"crash"} /\ UNCHANGED <<live, lk>>
Next == /\ l <= N /\ l' = l + 1
        /\ \/ New
           \/ Crash
           \/ ev.e \notin {"new", "crash"} /\ ~live /\ bad' = {} /\ UNCHANGED <<lk, live>>
           \/ ev.e \notin {"new", "crash"} /\ live /\ UNCHANGED live
              /\ (Write \/ SetBytes \/ DevStep \/ Toggle \/ Cycle \/ Idle \/ Read \/ End)
Spec == Init /\ [][Next]_vars
Conforms == bad \cap Checks = {}
Consumed == TLCGet("stats").diameter - 1 = N
Shown == [l |-> l - 1, bad |-> bad]
=============================================================================
