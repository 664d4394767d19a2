------------------------------ MODULE MCCoupler ------------------------------
(* Design model of a whole coupler: every interleaving of writes, serial      *)
(* writes and reads and cycles (acceptable ones, ones whose images and ones   *)
(* whose values are unacceptable), on the image the last cycle returned or on *)
(* one another client has changed.  In lockstep every module runs alone in a  *)
(* coupler of its own (C05, C08).                                            *)
EXTENDS Faults

CONSTANTS Setup,    \* which configuration, see below
          MaxPend,  \* writes pending at the same time
          MaxIn     \* bytes a serial module has received and nobody read
VARIABLES s,        \* the coupler
          img,      \* the output image standing in the field bus coupler
          lone,     \* per module: a coupler that consists of this module only
          want,     \* ghost: what was written since the last accepted cycle
          last      \* ghost: the last step
vars == <<s, img, lone, want, last>>

DO4 == "UR20_4DO_P"   DI4 == "UR20_4DI_P"   RO4 == "UR20_4RO_CO_255"
AO4 == "UR20_4AO_UI_16"

\* mods; per module the byte strings its input / output part may show
\* (wi, wo: unacceptable ones); values that may be written
Bit1(b) == [b |-> b]
Tel(rx, ta, d) == <<1 + 8 * rx + 32 * ta, Len(d)>> \o d \o [k \in 1..(6 - Len(d)) |-> 0]
NoTel(rx, ta) == <<8 * rx + 32 * ta>> \o [k \in 1..7 |-> 0]
OutTel(tx, d) == <<128 + 8 * tx, Len(d)>> \o d \o [k \in 1..(6 - Len(d)) |-> 0]
Fc(hi, cmd) == <<1, 0, hi, 0>> \o <<0, 0, 0, 0>> \o <<0, cmd>> \o <<0, 0>>
FcIn == [k \in 1..20 |-> k]
Fo(sec, c) == [fo |-> [p |-> <<sec, 0>>, c |-> c]]
Full(S) == IF MaxPend > 1 \/ MaxIn > 1 THEN S ELSE {}
Case ==
  CASE Setup = "digital" ->
    [mods |-> <<DO4, DI4, RO4>>,
     in |-> <<{}, {<<0>>, <<9>>}, {}>>,
     out |-> <<{<<0>>, <<245>>}, {}, {<<3>>, <<12>>}>>,
     short |-> TRUE, badin |-> {}, badout |-> {},
     writes |-> {[m |-> 1, c |-> 1, v |-> Bit1(TRUE)], [m |-> 1, c |-> 1, v |-> Bit1(FALSE)],
                 [m |-> 1, c |-> 4, v |-> Disabled], [m |-> 3, c |-> 2, v |-> Bit1(TRUE)],
                 [m |-> 3, c |-> 1, v |-> [y |-> <<1>>]], [m |-> 2, c |-> 3, v |-> None]},
     ser |-> {}]
  [] Setup = "counter" ->
    [mods |-> <<AO4, FCNT>>,
     in |-> <<{}, {FcIn}>>,
     out |-> <<{[k \in 1..8 |-> 0], <<1, 2, 255, 127, 0, 128, 255, 255>>},
               {Fc(0, 0), Fc(127, 1), Fc(128, 0)}>>,
     short |-> TRUE, badin |-> {}, badout |-> {},
     writes |-> {[m |-> 1, c |-> 3, v |-> Disabled], [m |-> 1, c |-> 1, v |-> Bit1(TRUE)],
                 [m |-> 2, c |-> 1, v |-> Fo(1, "start")], [m |-> 2, c |-> 1, v |-> Fo(9, "none")],
                 [m |-> 2, c |-> 2, v |-> Fo(8, "stop")], [m |-> 2, c |-> 2, v |-> Disabled]},
     ser |-> {}]
  [] Setup = "serial" ->
    [mods |-> <<DO4, COM>>,
     in |-> <<{}, {NoTel(0, 0), Tel(1, 0, <<7>>), Tel(1, 1, <<7>>)} \cup Full({Tel(2, 1, <<>>)})>>,
     out |-> <<{<<0>>, <<6>>}, {}>>,
     short |-> TRUE, badin |-> {[m |-> 2, b |-> <<1, 7, 0, 0, 0, 0, 0, 0>>]},
     badout |-> {[m |-> 2, b |-> <<0, 255, 0, 0, 0, 0, 0, 0>>]},
     writes |-> {[m |-> 1, c |-> 1, v |-> Bit1(TRUE)], [m |-> 1, c |-> 1, v |-> [y |-> <<>>]],
                 [m |-> 2, c |-> 1, v |-> [y |-> <<50>>]], [m |-> 2, c |-> 1, v |-> Disabled]},
     ser |-> {[m |-> 2, y |-> <<60, 61>>]}]
  [] Setup = "twoserial" ->
    [mods |-> <<COM, COM>>,
     in |-> <<{NoTel(0, 0), Tel(1, 1, <<7>>)}, {NoTel(0, 0), Tel(1, 1, <<8>>)} \cup Full({Tel(1, 0, <<8>>)})>>,
     out |-> <<{}, {}>>,
     short |-> FALSE, badin |-> {[m |-> 1, b |-> <<1, 7, 0, 0, 0, 0, 0, 0>>]}, badout |-> {},
     writes |-> {[m |-> 1, c |-> 1, v |-> [y |-> <<40>>]], [m |-> 2, c |-> 1, v |-> [y |-> <<50>>]]},
     ser |-> Full({[m |-> 1, y |-> <<60>>]})]

Mods == Case.mods
Blocks == [i \in DOMAIN Mods |-> [k \in 1..RegCount(Mods[i]) |-> 0]]
RECURSIVE Before(_, _, _)
Before(i, f(_), acc) == IF i = 1 THEN acc ELSE Before(i - 1, f, acc + f(i - 1))
CLen(i) == IF Mods[i] = COM THEN 8 ELSE 0
IB(i) == InBytes(Mods[i], CLen(i))
OB(i) == OutBytes(Mods[i], CLen(i))
Offs == [k \in 1..(2 * Len(Mods)) |->
  LET i == (k + 1) \div 2 IN
  IF k % 2 = 1 THEN (IF OB(i) = 0 THEN NoOffset ELSE 32768 + 8 * Before(i, OB, 0))
  ELSE (IF IB(i) = 0 THEN NoOffset ELSE 8 * Before(i, IB, 0))]
LoneOffs(i) == <<IF OB(i) = 0 THEN NoOffset ELSE 32768, IF IB(i) = 0 THEN NoOffset ELSE 0>>
InLen == (Before(Len(Mods) + 1, IB, 0) + 1) \div 2
OutLen == (Before(Len(Mods) + 1, OB, 0) + 1) \div 2

\* an image from the modules' parts
Image(len, offs, parts) ==
  LET byte(b) == LET c == {i \in DOMAIN parts : parts[i] # <<>> /\ b >= offs[i] /\ b < offs[i] + Len(parts[i])}
                 IN IF c = {} THEN 0 ELSE LET i == CHOOSE i \in c : TRUE IN parts[i][b - offs[i] + 1]
  IN TLCEval([k \in 1..len |-> byte(2 * k - 2) + 256 * byte(2 * k - 1)])
Parts(S) == {p \in [DOMAIN Mods -> UNION {IF S[i] = {} THEN {<<>>} ELSE S[i] : i \in DOMAIN Mods}] :
               \A i \in DOMAIN Mods : IF S[i] = {} THEN p[i] = <<>> ELSE p[i] \in S[i]}
InAt == [i \in DOMAIN Mods |-> Before(i, IB, 0)]
OutAt == [i \in DOMAIN Mods |-> Before(i, OB, 0)]
WithPart(im, at, b) ==      \* the image with the bytes at `at' replaced
  LET byte(k) == IF k >= at /\ k < at + Len(b) THEN b[k - at + 1] ELSE ImgByte(im, k)
  IN TLCEval([k \in DOMAIN im |-> byte(2 * k - 2) + 256 * byte(2 * k - 1)])
\* the images of a cycle
GoodIns == {Image(InLen, InAt, p) : p \in Parts(Case.in)}
BadIns == {WithPart(CHOOSE g \in GoodIns : TRUE, InAt[x.m], x.b) : x \in Case.badin}
          \cup (IF Case.short /\ InLen > 0 THEN {Take(CHOOSE g \in GoodIns : TRUE, InLen - 1)} ELSE {})
OutsFrom(im) == {im} \cup {WithPart(im, OutAt[i], b) : <<i, b>> \in
                   UNION {{<<i, b>> : b \in Case.out[i]} : i \in DOMAIN Mods}}
BadOuts(im) == {WithPart(im, OutAt[x.m], x.b) : x \in Case.badout}
               \cup (IF Case.short THEN {Take(im, OutLen - 1)} ELSE {})

ASSUME NewOk(Mods, Offs, Blocks)
\* C08: the parts do not overlap
ASSUME \A i, j \in DOMAIN Mods : i # j /\ OB(i) > 0 /\ OB(j) > 0 =>
    (OutAt[i]..(OutAt[i] + OB(i) - 1)) \cap (OutAt[j]..(OutAt[j] + OB(j) - 1)) = {}

LoneState(i) == NewState(<<Mods[i]>>, LoneOffs(i), <<Blocks[i]>>)
Init == /\ s = NewState(Mods, Offs, Blocks)
        /\ img \in {Image(OutLen, OutAt, [i \in DOMAIN Mods |-> [k \in 1..OB(i) |-> 0]]),
                    Image(OutLen, OutAt, [i \in DOMAIN Mods |->
                      IF Mods[i] = COM THEN OutTel(0, <<9>>) ELSE [k \in 1..OB(i) |-> 0]])}
        /\ lone = [i \in DOMAIN Mods |-> LoneState(i)]
        /\ want = <<>> /\ last = [e |-> "init"]

Set(w) ==
  /\ s' = SetOutput(s, w.m, w.c, w.v)
  /\ lone' = [lone EXCEPT ![w.m] = SetOutput(@, 1, w.c, w.v)]
  /\ want' = Append(SelectSeq(want, LAMBDA x : ~(x.m = w.m /\ x.c = w.c)), w)
  /\ last' = [e |-> "set", w |-> w]
  /\ UNCHANGED img
Ser(w) ==
  /\ s' = [s EXCEPT !.host[w.m] = HostWrite(@, w.y)]
  /\ lone' = [lone EXCEPT ![w.m].host[1] = HostWrite(@, w.y)]
  /\ last' = [e |-> "wr", w |-> w]
  /\ UNCHANGED <<img, want>>
Fetch(m, n) ==
  /\ s.host[m].inq # <<>>
  /\ s' = [s EXCEPT !.host[m] = HostRead(@, n)]
  /\ lone' = [lone EXCEPT ![m].host[1] = HostRead(@, n)]
  /\ last' = [e |-> "rd", m |-> m, n |-> n, y |-> HostReadable(s.host[m], n), z |-> HostReadable(lone[m].host[1], n)]
  /\ UNCHANGED <<img, want>>
OwnIn(i, in) == WordsOf(IF IB(i) = 0 THEN <<>> ELSE SliceBytes(in, Offs[2 * i], InBase, IB(i)))
OwnOut(i, out) == WordsOf(IF OB(i) = 0 THEN <<>> ELSE SliceBytes(out, Offs[2 * i - 1], OutBase, OB(i)))
Cycle(in, out) ==
  LET cls == Class(s, in, out) IN
  /\ s' = AfterCycle(s, cls, in, out)
  /\ img' = IF cls = "ok" THEN NextImage(s, in, out) ELSE img
  /\ lone' = [i \in DOMAIN Mods |->
                CASE cls = "ok" -> Accepted(lone[i], OwnIn(i, in), OwnOut(i, out))
                  [] cls = "value" -> RejectedValue(lone[i])
                  [] OTHER -> lone[i]]
  /\ want' = IF cls = "ok" THEN <<>>
             ELSE IF cls = "value" THEN SelectSeq(want, LAMBDA x : Mods[x.m] = COM) ELSE want
  /\ last' = [e |-> "cy", cls |-> cls, in |-> in, out |-> out]

Next ==
  \/ \E w \in Case.writes : Set(w)
  \/ \E w \in Case.ser : Ser(w)
  \/ \E m \in DOMAIN s.host, n \in {1, 8} : Fetch(m, n)
  \/ \E in \in GoodIns : \E out \in OutsFrom(img) : Cycle(in, out)
  \/ \E in \in BadIns : Cycle(in, img)
  \/ \E out \in BadOuts(img) : Cycle(CHOOSE g \in GoodIns : TRUE, out)
Spec == Init /\ [][Next]_vars

Small == /\ Len(s.pend) <= MaxPend
         /\ \A m \in DOMAIN s.host : Len(s.host[m].outq) <= 1 /\ Len(s.host[m].inq) <= MaxIn
\* `last' only serves the properties
Dyn(x) == <<x.pend, x.host, x.ltx, x.iv, x.ov>>
View == <<Dyn(s), img, [i \in DOMAIN lone |-> Dyn(lone[i])], want>>

-----------------------------------------------------------------------------
TypeOk == Len(img) = OutLen /\ Regular(s) /\ CanAssemble(Spans(s)) /\ Packed(Spans(s))
\* C06: the pending writes are the last ones accepted for each channel
PendingIsWant ==
  /\ PendKeys(s) = {<<w.m, w.c>> : w \in RangeOf(want)}
  /\ \A k \in DOMAIN want : PendVal(s, want[k].m, want[k].c) = want[k].v
\* C25: at most one write per channel is kept, and one value of each is reported
Kept == /\ Len(s.pend) = Cardinality(PendKeys(s))
        /\ \A k \in DOMAIN s.pend : ValidAddr(s, s.pend[k].m, s.pend[k].c)
        /\ s.iv # <<>> => \A i \in DOMAIN Mods : Len(s.iv[i]) = Chan(Mods[i]) /\ Len(s.ov[i]) = Chan(Mods[i])
\* the image follows the writes and keeps the rest; the functional and the
\* relational description of the encoding agree
Encoded ==
  [][last'.e = "cy" /\ last'.cls = "ok" =>
       \A i \in DOMAIN Mods : OB(i) > 0 /\ Mods[i] # COM =>
         /\ BadChannels(Mods[i], s.conf[i], NextValues(s, i, last'.out), OutSlice(s, i, img')) = {}
         /\ \A c \in 1..Chan(Mods[i]) :
              NextValues(s, i, last'.out)[c] =
                IF \E w \in RangeOf(want) : w.m = i /\ w.c = c
                THEN (CHOOSE w \in RangeOf(want) : w.m = i /\ w.c = c).v
                ELSE OutValues(s, i, last'.out)[c]
         /\ s'.pend = <<>>]_vars
\* C07: running on its own output keeps the outputs
Stable ==
  [][last'.e = "cy" /\ last'.cls = "ok" =>
       \A i \in DOMAIN Mods : OB(i) > 0 /\ Mods[i] # COM =>
         NextBytes(s', i, last'.in, img') = OutSlice(s, i, img')]_vars
\* C05, C08: the coupler is the product of its modules
Product ==
  \A i \in DOMAIN Mods :
    /\ s.iv # <<>> => s.iv[i] = lone[i].iv[1] /\ s.ov[i] = lone[i].ov[1]
    /\ Mods[i] = COM => s.host[i] = lone[i].host[1] /\ s.ltx[i] = lone[i].ltx[1]
    /\ \A c \in 1..Chan(Mods[i]) : Pending(s, i, c) <=> Pending(lone[i], 1, c)
ProductImage ==
  [][last'.e = "cy" /\ last'.cls = "ok" =>
       \A i \in DOMAIN Mods : OB(i) > 0 =>
         /\ Class(lone[i], OwnIn(i, last'.in), OwnOut(i, last'.out)) = "ok"
         /\ OwnOut(i, img') = NextImage(lone[i], OwnIn(i, last'.in), OwnOut(i, last'.out))]_vars
ProductRead == [][last'.e = "rd" => last'.y = last'.z]_vars
\* C05: reported outputs are new segments only, reported inputs what is there
Reports ==
  [][last'.e = "cy" /\ last'.cls = "ok" =>
       \A i \in DOMAIN Mods : Mods[i] = COM =>
         /\ s'.ov[i][1] # None => ComOut(s, i, last'.out).tx # s.ltx[i]
         /\ s'.iv[i][1] # None => ComIn(s, i, last'.in).av]_vars
\* C09: a rejected cycle changes nothing but the writes it rejects
Rejected ==
  [][last'.e = "cy" /\ last'.cls # "ok" =>
       /\ s'.iv = s.iv /\ s'.ov = s.ov /\ s'.host = s.host /\ s'.ltx = s.ltx /\ img' = img
       /\ last'.cls = "image" => s'.pend = s.pend
       /\ \A k \in DOMAIN s.pend : Mods[s.pend[k].m] = COM =>
            \E j \in DOMAIN s'.pend : s'.pend[j] = s.pend[k]
       /\ last'.cls = "value" => \A k \in DOMAIN s'.pend : Mods[s'.pend[k].m] = COM]_vars
\* C24: a cycle is refused exactly if there is a cause that can be named
Causes ==
  [][last'.e = "cy" => (last'.cls = "ok" <=> CycleFaults(s, last'.in, last'.out) = {})]_vars
\* ... and one bad value cannot block later cycles: after a rejection because
\* of a written value, the cycle on the standing image is acceptable
NotStuck ==
  [][last'.e = "cy" /\ last'.cls = "value" /\ last'.out = img =>
       Class(s', last'.in, img) = "ok" \/ ~OutOk(s, img)
       \/ \E i \in DOMAIN Mods : OB(i) > 0 /\ Mods[i] # COM /\ ~EncodeOk(Mods[i], s.conf[i], OutValues(s, i, img))]_vars
=============================================================================
