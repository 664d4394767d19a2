------------------------------ MODULE SerialLink ------------------------------
(* Design model of one serial link: application, host (one coupler cycle at   *)
(* a time) and module interleave freely.  Checked exhaustively for small      *)
(* constants: C01 - C04 as invariants / action properties, C18 as liveness.  *)
EXTENDS SerialHost, SerialDevice, FiniteSets

CONSTANTS Cap,        \* payload capacity of a telegram (6 or 14 in reality)
          WriteSizes, \* sizes the application may write at once
          MaxBytes,   \* bytes the application writes in total
          SegSizes,   \* sizes of the telegrams the module presents
          MaxSegs,    \* telegrams the module presents in total
          ReadSizes,  \* buffer sizes of reads
          FirstAck, FirstRx, \* counters the module starts with
          Lags,       \* differences between the image's first counter and the acknowledged one
          Toggles,    \* TRUE: another client of the coupler may change the module's flags
          Rejects     \* TRUE: cycles may be rejected

VARIABLES h,      \* host
          dev,    \* module
          img,    \* output telegram standing in the image
          nw,     \* bytes written so far: the k-th byte written is k
          got,    \* bytes the module has taken over (from images the host produced)
          np,     \* telegrams presented so far; the k-th consists of bytes <<k, i>>
          ops,    \* number of operating cycles (saturating at 1)
          due,    \* telegrams that must be delivered, in order
          opt,    \* the telegram standing at the end of start-up: may be delivered
          red,    \* what the application has read
          ours    \* the image was produced by the host
vars == <<h, dev, img, nw, got, np, ops, due, opt, red, ours>>

Junk == 99
Seg(k, n) == [i \in 1..n |-> <<k, i>>]

Init ==
  /\ h = HostInit(Cap + 2)
  /\ \E a \in FirstAck, x \in FirstRx, t \in Lags, av \in BOOLEAN, f \in BOOLEAN, u \in BOOLEAN :
       /\ av => u
       /\ dev = [ack |-> a, held |-> FALSE, rx |-> x, used |-> u, av |-> av, hold |-> FALSE,
                 d |-> IF av THEN <<<<0, 1>>>> ELSE <<>>]
       /\ img = [rf |-> f, tf |-> FALSE, hw |-> FALSE, tx |-> (a + t) % 4, ra |-> x,
                 rst |-> ~f, d |-> IF t = 1 THEN <<Junk>> ELSE <<>>]
  /\ nw = 0 /\ got = <<>> /\ np = 0 /\ ops = 0
  /\ due = <<>> /\ opt = <<>> /\ red = <<>> /\ ours = FALSE

Write(n) ==
  /\ nw + n <= MaxBytes
  /\ h' = HostWrite(h, [i \in 1..n |-> nw + i])
  /\ nw' = nw + n
  /\ UNCHANGED <<dev, img, got, np, ops, due, opt, red, ours>>

Read(n) ==
  /\ h.inq # <<>>
  /\ red' = red \o HostReadable(h, n)
  /\ h' = HostRead(h, n)
  /\ UNCHANGED <<dev, img, nw, got, np, ops, due, opt, ours>>

Cycle ==
  LET ci == DevTelegram(dev) IN
  /\ img' = HostOut(h, ci, img)
  /\ h' = HostAfter(h, ci, img)
  /\ ours' = TRUE
  /\ dev' = Seen(dev)
  /\ ops' = IF h.st = "done" THEN 1 ELSE 0
  /\ opt' = IF h.st = "done" /\ ops = 0 /\ dev.av /\ dev.d # <<>> /\ due = <<>>
            THEN dev.d ELSE opt
  /\ UNCHANGED <<nw, got, np, due, red>>

\* a rejected cycle: nothing changes (kept explicit for the trace specs)
Reject == Rejects /\ UNCHANGED vars

DevTake ==
  /\ CanTake(dev, img)
  /\ dev' = DoTake(dev)
  /\ got' = IF ours THEN got \o img.d ELSE got
  /\ UNCHANGED <<h, img, nw, np, ops, due, opt, red, ours>>
DevAck ==
  /\ CanAck(dev) /\ dev' = DoAck(dev)
  /\ UNCHANGED <<h, img, nw, got, np, ops, due, opt, red, ours>>
DevPresent(n) ==
  /\ CanPresent(dev, img) /\ np < MaxSegs
  /\ dev' = DoPresent(dev, Seg(np + 1, n))
  /\ np' = np + 1
  \* only telegrams presented once start-up is over must be delivered
  /\ due' = IF h.st = "done" THEN due \o Seg(np + 1, n) ELSE due
  /\ UNCHANGED <<h, img, nw, got, ops, opt, red, ours>>
DevShow(n) ==
  /\ CanShow(dev) /\ np < MaxSegs
  /\ dev' = DoShow(dev, Seg(np + 1, n))
  /\ np' = np + 1
  /\ due' = IF h.st = "done" THEN due \o Seg(np + 1, n) ELSE due
  /\ UNCHANGED <<h, img, nw, got, ops, opt, red, ours>>
DevWithdraw ==
  /\ CanWithdraw(dev, img) /\ dev' = DoWithdraw(dev)
  /\ UNCHANGED <<h, img, nw, got, np, ops, due, opt, red, ours>>
DevSkip ==
  /\ CanSkip(dev, img) /\ dev' = DoSkip(dev)
  /\ UNCHANGED <<h, img, nw, got, np, ops, due, opt, red, ours>>

\* another client of the coupler
Toggle ==
  /\ Toggles /\ h.st = "done"
  /\ \/ img' = [img EXCEPT !.hw = ~@]
     \/ img' = [img EXCEPT !.rst = ~@]
  /\ UNCHANGED <<h, dev, nw, got, np, ops, due, opt, red, ours>>

Next ==
  \/ \E n \in WriteSizes : Write(n)
  \/ \E n \in ReadSizes : Read(n)
  \/ Cycle \/ Reject
  \/ DevTake \/ DevAck \/ DevWithdraw \/ DevSkip \/ Toggle
  \/ \E n \in SegSizes : DevPresent(n) \/ DevShow(n)

Spec == Init /\ [][Next]_vars
Fair == /\ WF_vars(Cycle) /\ WF_vars(DevTake) /\ WF_vars(DevAck)
        /\ WF_vars(\E n \in ReadSizes : Read(n))
FairSpec == Spec /\ Fair

-----------------------------------------------------------------------------
\* C01: what the module took over is a prefix of what was written.
TxExactlyOnce == /\ Len(got) <= nw /\ \A i \in 1..Len(got) : got[i] = i
\* nothing is lost on the way: bytes taken + standing in the image + queued
RECURSIVE QLen(_)
QLen(q) == IF q = <<>> THEN 0 ELSE Len(Head(q)) + QLen(Tail(q))
InFlight == IF ours /\ CanTake(dev, img) THEN Len(img.d) ELSE 0
TxNothingLost == nw = Len(got) + InFlight + QLen(h.outq)

\* C25: the host keeps nothing but bytes written that the module has not taken
\* and bytes presented that nobody has read
Kept == /\ QLen(h.outq) <= nw - Len(got)
        /\ Len(h.inq) + Len(red) <= Len(opt) + Len(due)
        /\ \A k \in DOMAIN h.outq : h.outq[k] # <<>>

\* C02: what was read is a prefix of the due telegrams, possibly after the one
\* that was standing in the image at the end of start-up.
RxExactlyOnce ==
  LET all == red \o h.inq IN \/ StartsWith(due, all) \/ StartsWith(opt \o due, all)
\* every due telegram is either delivered or still being presented
RxNothingLost ==
  LET all == red \o h.inq
      cur == IF h.st = "done" /\ dev.av /\ dev.rx # h.last THEN dev.d ELSE <<>>
  IN h.st = "done" => \/ all \o cur = due \/ all \o cur = opt \o due
                      \/ ops = 0 /\ all = <<>> /\ due = <<>>

\* C03
\* (a counter left over in the image is only corrected by the first segment)
SentAny == QLen(h.outq) < nw
Window == ops = 1 /\ SentAny => img.tx \in {dev.ack, Inc(dev.ack)}
Capacity == ours => Len(img.d) <= Cap
WindowStep ==
  [][(h.st = "done" /\ <<img.tx, img.d>> # <<img'.tx, img'.d>>) =>
       /\ img.tx # Inc(dev.ack) /\ img'.tx = Inc(dev.ack) /\ Len(img'.d) \in 1..Cap]_vars
AckMirror == [][Cycle => img'.ra = dev.rx]_vars
FlagsKept == [][(Cycle /\ h.st = "done") => <<img.rf, img.tf, img.hw, img.rst>>
                               = <<img'.rf, img'.tf, img'.hw, img'.rst>>]_vars
\* C04
StartUp == /\ (h.st = "reset" => ~img.rst /\ img.rf /\ img.tf /\ img.d = <<>>)
           /\ (h.st = "done" /\ ops = 0 => (Toggles \/ img.rst) /\ ~img.rf /\ ~img.tf /\ img.d = <<>>)
           /\ (h.st # "done" => got = <<>> /\ red = <<>> /\ h.inq = <<>>)
StartUpOnce == [][h.st = "done" => h'.st = "done"]_vars

\* C18
TxProgress == \A k \in 1..MaxBytes : (nw >= k) ~> (Len(got) >= k)
RxProgress == \A k \in 1..(MaxSegs * 2) : (Len(due) >= k) ~> (Len(red) >= k)
StartsUp == <>(h.st = "done")
=============================================================================
