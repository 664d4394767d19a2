------------------------------- MODULE GenLink -------------------------------
(* Behaviours of SerialLink for replay in the real library: the environment's *)
(* steps are remembered and printed as JSON once a behaviour has Depth steps. *)
(* (TLC -simulate; the harness runs the steps against the real coupler and     *)
(* records what happens, TraceLink judges the record.)                        *)
EXTENDS SerialLink, Json, TLC, SequencesExt
CONSTANT Depth
VARIABLE hist
gvars == <<vars, hist>>

GInit == /\ Init
         /\ hist = <<[e |-> "new", cap |-> Cap, ack |-> dev.ack, rx |-> dev.rx, used |-> dev.used,
                      av |-> dev.av, tx |-> img.tx, rf |-> img.rf, rst |-> img.rst, n |-> Len(img.d)]>>
Log(r) == hist' = Append(hist, r)
\* one size at a time, so that no kind of step crowds out the others
Turn(S) == LET q == SetToSeq(S) IN q[((Len(hist) * 7 + nw + 3 * np) % Len(q)) + 1]
GNext ==
  \/ QLen(h.outq) < 4 * Cap /\ LET n == Turn(WriteSizes) IN Write(n) /\ Log([e |-> "wr", n |-> n])
  \/ LET n == Turn(ReadSizes) IN Read(n) /\ Log([e |-> "rd", n |-> n])
  \/ Cycle /\ Log([e |-> "cy"])
  \/ Reject /\ Log([e |-> "rej"])
  \/ DevTake /\ Log([e |-> "take"])
  \/ DevAck /\ Log([e |-> "ack"])
  \/ DevWithdraw /\ Log([e |-> "wd"])
  \/ DevSkip /\ Log([e |-> "skip"])
  \/ \E b \in {Turn({"hw", "rst"})} :
       Toggle /\ img'[b] # img[b] /\ Log([e |-> "fl", b |-> b])
  \/ LET n == Turn(SegSizes) IN DevPresent(n) /\ Log([e |-> "pres", n |-> n])
  \/ LET n == Turn(SegSizes) IN DevShow(n) /\ Log([e |-> "show", n |-> n])
GSpec == GInit /\ [][GNext]_gvars
Told == Len(hist) # Depth \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
