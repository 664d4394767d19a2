------------------------------ MODULE GenCoupler ------------------------------
(* Behaviours of Coupler for replay in the real library (TLC -simulate).      *)
(* Configuration, values and images are drawn at random; the specification     *)
(* follows the coupler's state and its images, so that what is drawn fits it    *)
(* (or deliberately does not).  The steps are printed as JSON once a behaviour *)
(* has Depth of them; the harness performs them on the real coupler and         *)
(* records what happens, the trace specifications judge the record.            *)
EXTENDS Coupler, Json
CONSTANTS Depth, MaxMods, Coms, Wrong   \* Coms: percentage of serial modules
                                        \* Wrong: percentage of unacceptable things
VARIABLES s, img, inp, hist
vars == <<s, img, inp, hist>>

R(S) == RandomElement(S)
Chance(p) == R(1..100) <= p
Byte(k) == R(0..255)
Word(k) == R(0..65535)
Words(n) == TLCEval([k \in 1..n |-> Word(k)])
Bytes(n) == TLCEval([k \in 1..n |-> Byte(k)])

-----------------------------------------------------------------------------
(* Configuration.                                                            *)
PickType(i) == IF Chance(Coms) THEN COM ELSE R(Supported)
KindOf(t, j) == IF j <= Len(Layout[t].m) THEN Layout[t].m[j]
                ELSE Layout[t].c[((j - 1 - Len(Layout[t].m)) % Len(Layout[t].c)) + 1]
Reg(kind) == CASE kind.k = "enum" -> R(0..(Len(kind.names) - 1))
               [] kind.k = "char" -> Byte(0)
               [] OTHER -> Word(0)
Block(t) == TLCEval([j \in 1..RegCount(t) |-> Reg(KindOf(t, j))])
CLen(t, b) == IF t = COM THEN (IF b[1] = 0 THEN 8 ELSE 16) ELSE 0
\* offsets: packed, some modules start at the next register instead
RECURSIVE Place(_, _, _, _, _, _)
Place(mods, par, al, i, ip, op) ==
  IF i > Len(mods) THEN <<>>
  ELSE LET cl == CLen(mods[i], par[i])
           ni == InBytes(mods[i], cl)  no == OutBytes(mods[i], cl)
           p == IF ni > 0 /\ ip % 2 = 1 /\ al[i] THEN ip + 1 ELSE ip
           o == IF no > 0 /\ op % 2 = 1 /\ al[i] THEN op + 1 ELSE op
       IN <<IF no = 0 THEN NoOffset ELSE 32768 + 8 * o, IF ni = 0 THEN NoOffset ELSE 8 * p>>
          \o Place(mods, par, al, i + 1, p + ni, o + no)
Need(t, has(_), at(_), n(_)) ==
  LET e == {0} \cup {at(i) + n(i) : i \in {k \in DOMAIN t.mods : has(k)}}
  IN ((CHOOSE m \in e : \A x \in e : x <= m) + 1) \div 2
IAt(t, i) == ByteOf(InOff(t.off, i), InBase)
OAt(t, i) == ByteOf(OutOff(t.off, i), OutBase)
InWords(t) == Need(t, LAMBDA i : HasIn(t, i), LAMBDA i : IAt(t, i), LAMBDA i : NIn(t, i))
OutWords(t) == Need(t, LAMBDA i : HasOut(t, i), LAMBDA i : OAt(t, i), LAMBDA i : NOut(t, i))

-----------------------------------------------------------------------------
(* Images.                                                                   *)
WithPart(im, at, b) ==
  LET byte(k) == IF k >= at /\ k < at + Len(b) THEN b[k - at + 1] ELSE ImgByte(im, k)
  IN TLCEval([k \in DOMAIN im |-> byte(2 * k - 2) + 256 * byte(2 * k - 1)])
\* a module's part of an image
Part(t, n, bad) ==
  CASE t = COM -> <<Byte(0), IF bad THEN R({n - 1, n, 255, (Byte(1) % (257 - n)) + n - 1})
                             ELSE R({0, n - 2, Byte(1) % (n - 1)})>> \o Bytes(n - 2)
    [] t = FCNT /\ n = 12 -> LET b == Bytes(12) IN
         [b EXCEPT ![1] = IF bad THEN 128 + (@ % 128) ELSE @ % 128, ![2] = 0,
                   ![5] = @ % 128, ![6] = 0]
    [] OTHER -> Bytes(n)
RECURSIVE FillIn(_, _, _)
FillIn(t, i, im) ==
  IF i > Len(t.mods) THEN im
  ELSE FillIn(t, i + 1, IF HasIn(t, i) THEN WithPart(im, IAt(t, i), Part(t.mods[i], NIn(t, i), FALSE)) ELSE im)
RECURSIVE FillOut(_, _, _)
FillOut(t, i, im) ==
  IF i > Len(t.mods) THEN im
  ELSE FillOut(t, i + 1, IF HasOut(t, i) THEN WithPart(im, OAt(t, i), Part(t.mods[i], NOut(t, i), FALSE)) ELSE im)
Zero(n) == TLCEval([k \in 1..n |-> 0])

-----------------------------------------------------------------------------
(* Values.                                                                   *)
Dec(m) == [f |-> "n", d |-> <<m \div 10, m, 0>>]     \* m millionths
Duration(us) == <<us \div 1000000, (us % 1000000) * 1000>>
AnyValue(k) ==
  CASE k = 1 -> [b |-> Chance(50)]
    [] k = 2 -> Dec(R((-24000000)..24000000))
    [] k = 3 -> Dec(1000000 * R((-11)..21))
    [] k = 4 -> Disabled
    [] k = 5 -> [y |-> Bytes(R(0..20))]
    [] k = 6 -> None
    [] k = 7 -> [fo |-> [p |-> Duration(R({0, 1, 70000, 8388607, R(0..8388607)})), c |-> R({"start", "stop", "none"})]]
    [] k = 8 -> [fo |-> [p |-> Duration(R({8388608, 9000000, R(8388608..2000000000)})), c |-> "none"]]
    [] k = 9 -> [fo |-> [p |-> <<R(0..7), R(0..999999999)>>, c |-> R({"start", "stop", "none"})]]
GoodKinds(t) == CASE t \in DOs -> {1, 4}
                  [] t \in AOs -> {2, 3, 4}
                  [] t = FCNT -> {4, 7, 9}
                  [] t = COM -> {5}
                  [] OTHER -> 1..9

-----------------------------------------------------------------------------
Init ==
  \E k \in 1..150 : \E n \in {R(1..MaxMods)} :
  \E mods \in {TLCEval([i \in 1..n |-> PickType(i)])} :
  \E par \in {TLCEval([i \in 1..n |-> Block(mods[i])])} :
  \E offs \in {Place(mods, par, TLCEval([i \in 1..n |-> Chance(30)]), 1, 0, 0)} :
    /\ s = NewState(mods, offs, par)
    /\ img \in {FillOut(s, 1, Zero(OutWords(s)))}
    /\ inp \in {FillIn(s, 1, Zero(InWords(s)))}
    /\ hist = <<[e |-> "new", mods |-> mods, par |-> par, offs |-> offs, img |-> img]>>
Log(r) == hist' = Append(hist, r)

Set ==
  \E m \in {R(DOMAIN s.mods)} :
    /\ Chan(s.mods[m]) > 0
    /\ \E c \in {R(1..Chan(s.mods[m]))} :
       \E v \in {AnyValue(IF Chance(Wrong) THEN R(1..9) ELSE R(GoodKinds(s.mods[m])))} :
         /\ s' = SetOutput(s, m, c, v)
         /\ Log([e |-> "set", m |-> m - 1, c |-> c - 1, v |-> v])
  /\ UNCHANGED <<img, inp>>
Write ==
  /\ DOMAIN s.host # {}
  /\ \E m \in {R(DOMAIN s.host)} : \E y \in {Bytes(R({1, 3, 6, 7, 13, 14, 15, 30}))} :
       /\ s' = [s EXCEPT !.host[m] = HostWrite(@, y)]
       /\ Log([e |-> "wr", m |-> m - 1, y |-> y])
  /\ UNCHANGED <<img, inp>>
Fetch ==
  /\ DOMAIN s.host # {}
  /\ \E m \in {R(DOMAIN s.host)} : \E n \in {R({1, 2, 6, 14, 50})} :
       /\ s' = [s EXCEPT !.host[m] = HostRead(@, n)]
       /\ Log([e |-> "rd", m |-> m - 1, k |-> n])
  /\ UNCHANGED <<img, inp>>

\* another client, or the module, has changed parts of the images
Patch(t, i, bad) == <<OAt(t, i), Part(t.mods[i], NOut(t, i), bad)>>
RECURSIVE Apply(_, _)
Apply(im, ps) == IF ps = <<>> THEN im ELSE Apply(WithPart(im, Head(ps)[1], Head(ps)[2]), Tail(ps))
Outs == {i \in DOMAIN s.mods : HasOut(s, i)}
Spoilable == {i \in Outs : s.mods[i] \in {COM, FCNT}}
InComs == {i \in DOMAIN s.host : TRUE}
\* serial modules answer to what stands in the image, sometimes
Answer(im, i) ==
  LET o == ParseOut(OutSlice(s, i, img))
      old == ParseIn(SliceBytes(im, InOff(s.off, i), InBase, NIn(s, i)))
      n == NIn(s, i)
      new == Chance(50)
      rx == IF new THEN Inc(old.rx) ELSE old.rx
      len == R({1, n - 2})
  IN <<1 + 8 * rx + 32 * (IF Chance(70) THEN o.tx ELSE old.ta), len>> \o Bytes(n - 2)
RECURSIVE Answers(_, _)
Answers(is, im) ==
  IF is = {} THEN im
  ELSE LET i == CHOOSE i \in is : TRUE
       IN Answers(is \ {i}, IF Chance(60) THEN WithPart(im, IAt(s, i), Answer(im, i)) ELSE im)
NewIn(bad) ==
  CASE bad /\ InComs # {} ->
         LET i == R(InComs) IN WithPart(inp, IAt(s, i), Part(COM, NIn(s, i), TRUE))
    [] bad -> IF inp = <<>> THEN inp ELSE Take(inp, R(0..(Len(inp) - 1)))
    [] OTHER -> CASE R(1..4) = 1 -> inp
                  [] R(1..3) = 1 -> FillIn(s, 1, inp)
                  [] OTHER -> Answers(DOMAIN s.host, inp)
NewPatch(bad) ==
  CASE bad /\ Spoilable # {} -> <<Patch(s, R(Spoilable), TRUE)>>
    [] Outs = {} \/ bad \/ Chance(50) -> <<>>
    [] OTHER -> <<Patch(s, R(Outs), FALSE)>> \o (IF Chance(50) THEN <<>> ELSE <<Patch(s, R(Outs), FALSE)>>)
Cycle ==
  \E wrong \in {IF Chance(Wrong) THEN R(1..3) ELSE 0} :
  \E in \in {NewIn(wrong = 1)} : \E ps \in {NewPatch(wrong = 2)} :
  \E cut \in {IF wrong = 3 /\ OutWords(s) > 0 THEN R(0..(OutWords(s) - 1)) ELSE 9999} :
  \E out \in {TLCEval(Take(Apply(img, ps), cut))} :
  \E cls \in {Class(s, in, out)} :
    /\ s' = AfterCycle(s, cls, in, out)
    /\ img' = IF cls = "ok" THEN NextImage(s, in, out) ELSE img
    /\ inp' = IF wrong = 1 THEN inp ELSE in
    /\ Log([e |-> "cy", in |-> in, patch |-> ps, cut |-> cut])

\* (the cycle three times: the simulator draws among these)
Next == Set \/ Write \/ Fetch \/ (Cycle /\ TRUE) \/ (Cycle /\ 1 = 1) \/ (Cycle /\ 2 = 2)
Spec == Init /\ [][Next]_vars
Told == Len(hist) # Depth \/ PrintT(<<"BEH", ToJson(hist)>>)
\* the specification's own image stays one it accepts
Sound == /\ Len(img) = OutWords(s) /\ Regular(s) /\ CanAssemble(Spans(s)) /\ Packed(Spans(s))
         /\ InOk(s, inp) /\ OutOk(s, img)
         /\ \A i \in DOMAIN s.mods : HasOut(s, i) /\ s.mods[i] # COM =>
              EncodeOk(s.mods[i], s.conf[i], OutValues(s, i, img))
=============================================================================
