----------------------------- MODULE SerialDevice -----------------------------
(* A protocol-conforming serial module.  Its state:                          *)
(*   ack    transmit counter it has acknowledged                             *)
(*   held   the telegram with counter Inc(ack) was taken over, not yet        *)
(*          acknowledged                                                     *)
(*   rx     receive counter it shows                                         *)
(*   used   a telegram was presented under this receive counter (not skipped) *)
(*   av, d  whether a telegram is presented, and its data                    *)
(*   hold   the telegram appeared under a counter that had been shown before: *)
(*          its acknowledge counts only after a further cycle                 *)
(* It sees the output telegram o standing in the image.                      *)
EXTENDS Words

CanTake(v, o) == ~v.held /\ o.tx = (v.ack + 1) % 4
DoTake(v) == [v EXCEPT !.held = TRUE]

CanAck(v) == v.held
DoAck(v) == [v EXCEPT !.held = FALSE, !.ack = (@ + 1) % 4]

\* A further telegram is presented once the current one is acknowledged.
CanPresent(v, o) == ~v.hold /\ o.ra = v.rx
DoPresent(v, d) == [v EXCEPT !.rx = (@ + 1) % 4, !.used = TRUE, !.av = TRUE, !.d = d]

\* Nothing further to present: the flag drops, counter (and data) stay.
CanWithdraw(v, o) == ~v.hold /\ v.av /\ o.ra = v.rx
DoWithdraw(v) == [v EXCEPT !.av = FALSE]

\* While nothing is presented a counter may be skipped (one at a time, so that
\* the next telegram's counter still differs from the last one's).
CanSkip(v, o) == ~v.av /\ v.used /\ o.ra = v.rx
DoSkip(v) == [v EXCEPT !.rx = (@ + 1) % 4, !.used = FALSE]

\* A telegram may also appear under a counter that has been shown without one.
CanShow(v) == ~v.av /\ ~v.used
DoShow(v, d) == [v EXCEPT !.used = TRUE, !.av = TRUE, !.d = d, !.hold = TRUE]
\* a coupler cycle has passed
Seen(v) == [v EXCEPT !.hold = FALSE]

DevTelegram(v) == [av |-> v.av, nf |-> FALSE, rx |-> v.rx, ta |-> v.ack, rdy |-> TRUE, d |-> v.d]
=============================================================================
