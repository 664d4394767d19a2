-------------------------------- MODULE GenTour --------------------------------
(* Every transition of the exhaustive model of a coupler as a behaviour: a     *)
(* shortest way to its first state, the step itself and a probe (a cycle on    *)
(* the returned image and reads) that shows what state it led to.  The harness *)
(* performs them on the real coupler.  Every Nth is taken (1: all).            *)
EXTENDS MCCoupler, Json
CONSTANTS Nth, Long   \* Long: longest way to a state
VARIABLE hist
StepOf(x) ==
  CASE x.e = "set" -> [e |-> "set", m |-> x.w.m - 1, c |-> x.w.c - 1, v |-> x.w.v]
    [] x.e = "wr" -> [e |-> "wr", m |-> x.w.m - 1, y |-> x.w.y]
    [] x.e = "rd" -> [e |-> "rd", m |-> x.m - 1, k |-> x.n]
    [] x.e = "cy" -> [e |-> "cy", in |-> x.in, out |-> x.out]
TInit == Init /\ hist = <<[e |-> "new", mods |-> Mods, par |-> Blocks, offs |-> Offs, img |-> img]>>
TNext == Next /\ hist' = Append(hist, StepOf(last'))
TSpec == TInit /\ [][TNext]_<<vars, hist>>
Short == Small /\ Len(hist) <= Long
\* without cycles that are rejected
ShortGood == Short /\ (last.e = "cy" => last.cls = "ok")
RECURSIVE Reads(_)
Reads(ms) == IF ms = {} THEN <<>>
             ELSE LET m == CHOOSE m \in ms : TRUE
                  IN <<[e |-> "rd", m |-> m - 1, k |-> 50]>> \o Reads(ms \ {m})
Again(in) == [e |-> "cy", in |-> in, patch |-> <<>>, cut |-> 9999]
Probe == <<Again(CHOOSE g \in GoodIns : TRUE)>> \o Reads(DOMAIN s.host)
Told == RandomElement(1..Nth) # 1 \/ PrintT(<<"BEH", ToJson(hist' \o Probe)>>)
=============================================================================
