------------------------------ MODULE SerialHost ------------------------------
(* The host's side of the serial module protocol: one instance per serial    *)
(* module.  HostNext is one coupler cycle: it sees the telegram the module    *)
(* presents (ci) and the telegram currently standing in the output image     *)
(* (co) and yields the next output telegram.                                 *)
EXTENDS Words

Inc(c) == (c + 1) % 4

HostInit(len) == [st |-> "clear", last |-> 0, inq |-> <<>>, outq |-> <<>>, cap |-> len - 2]

RECURSIVE Chunks(_, _)
Chunks(bs, cap) ==
  IF bs = <<>> THEN <<>>
  ELSE <<Take(bs, cap)>> \o Chunks(Drop(bs, Min(cap, Len(bs))), cap)

HostWrite(h, bs) == [h EXCEPT !.outq = @ \o Chunks(bs, h.cap)]

\* the bytes a read with a buffer of n bytes returns, and the host afterwards
HostReadable(h, n) == Take(h.inq, n)
HostRead(h, n) == [h EXCEPT !.inq = Drop(@, Min(n, Len(@)))]

Sends(h, ci, co) == h.st = "done" /\ h.outq # <<>> /\ Inc(ci.ta) # co.tx
Fetches(h, ci) == h.st = "done" /\ ci.av /\ ci.rx # h.last

HostOut(h, ci, co) ==
  LET o == [co EXCEPT !.ra = ci.rx] IN
  CASE h.st = "clear" -> [o EXCEPT !.rst = FALSE, !.rf = TRUE, !.tf = TRUE, !.d = <<>>]
    [] h.st = "reset" -> [o EXCEPT !.rst = TRUE, !.rf = FALSE, !.tf = FALSE, !.d = <<>>]
    [] OTHER -> IF Sends(h, ci, co)
                THEN [o EXCEPT !.tx = Inc(ci.ta), !.d = Head(h.outq)]
                ELSE o

HostAfter(h, ci, co) ==
  CASE h.st = "clear" -> [h EXCEPT !.st = "reset"]
    [] h.st = "reset" -> [h EXCEPT !.st = "done", !.last = 4]   \* 4: no counter seen yet
    [] OTHER ->
         [h EXCEPT !.outq = IF Sends(h, ci, co) THEN Tail(@) ELSE @,
                   !.inq  = IF Fetches(h, ci) THEN @ \o ci.d ELSE @,
                   !.last = IF Fetches(h, ci) THEN ci.rx ELSE @]
=============================================================================
