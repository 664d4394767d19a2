------------------------------ MODULE GenConfig ------------------------------
(* Every configuration of MCConfig as a behaviour: the coupler is built and,   *)
(* if that must succeed, runs two cycles.                                     *)
EXTENDS MCConfig, Json
Start == [e |-> "new", mods |-> mods, par |-> blocks, offs |-> offs,
          img |-> IF fault = "none" THEN OutImg(1) ELSE <<>>]
Again(in0) == [e |-> "cy", in |-> in0, patch |-> <<>>, cut |-> 9999]
Told == PrintT(<<"BEH", ToJson(<<Start>> \o
          (IF fault # "none" \/ mods = <<>> THEN <<>>
           ELSE <<[e |-> "cy", in |-> InImg(1), out |-> OutImg(1)], Again(InImg(2)), Again(InImg(2)),
                  [e |-> "cy", in |-> InImg(1), out |-> OutImg(2)]>>))>>)
=============================================================================
