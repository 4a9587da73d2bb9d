-------------------------------- MODULE Lines -------------------------------
(* Ring-buffer devices over lines too long for small integers (C06 - C10):  *)
(* a second of audio is 2^16 samples, a minute 2^22.  Lengths, positions and *)
(* distances are 22-bit limbs as in Giant, memory is sparse (cells never     *)
(* written hold 0), and a run of many steps is one transition.  The comb     *)
(* filter here has feedback one half and no dampening.                       *)
EXTENDS Interp, Limb

VARIABLE line   \* [n: cells, m: position -> value, t: kind, b, s: view, i: position]
lvars == <<line>>
LNone == [n |-> Zero, m |-> <<>>, t |-> "none", b |-> Zero, s |-> Zero, i |-> Zero]
LinesInit == line = LNone

LAt(p) == IF p \in DOMAIN line.m THEN line.m[p] ELSE 0
Abs3(i) == LAdd(line.b, i)                        \* place of index i
LNext(i) == LET j == LInc(i, 1) IN IF j = line.s THEN Zero ELSE j
LFits(b, s) == s # Zero /\ LLe(LAdd(b, s), line.n)
Dl == line.t = "dl"

LLoad(n) == line' = [LNone EXCEPT !.n = n]
LPut(p, v) == LLt(p, line.n) /\ line' = [line EXCEPT !.m = (p :> v) @@ line.m]
LNew(t, b, s) == LFits(b, s) /\ line' = [line EXCEPT !.t = t, !.b = b, !.s = s, !.i = Zero]
LChange(b, s) == /\ LFits(b, s) /\ line.t # "none"
                 /\ line' = [line EXCEPT !.b = b, !.s = s, !.i = IF LLt(line.i, s) THEN line.i ELSE Zero]
LSize(n, b, k) == Dl /\ n = line.s /\ b = line.b /\ k = line.s /\ UNCHANGED lvars
LRead(v) == Dl /\ v = LAt(Abs3(line.i)) /\ UNCHANGED lvars
LAdvance == Dl /\ line' = [line EXCEPT !.i = LNext(line.i)]

\* what a step puts where c was, and what it gives, for input x
Into(t, c, x) == IF t = "dl" THEN x ELSE x + c \div 2
Out(t, c, x) == IF t = "ap" THEN c - x ELSE c
LStep(x, v) ==
  LET c == LAt(Abs3(line.i))
  IN /\ line.t # "none" /\ TRUE = (Dl \/ c % 2 = 0)
     /\ v = Out(line.t, c, x)
     /\ line' = [line EXCEPT !.m = (Abs3(line.i) :> Into(line.t, c, x)) @@ line.m, !.i = LNext(line.i)]

\* steps until the index of place p is reached
InView(p) == LLe(line.b, p) /\ LLt(p, LAdd(line.b, line.s))
Ahead(p) == LET i == LSub(p, line.b)
            IN IF LLe(line.i, i) THEN LSub(i, line.i) ELSE LSub(LAdd(i, line.s), line.i)
Around(k) == LET j == LAdd(line.i, k) IN IF LLt(j, line.s) THEN j ELSE LSub(j, line.s)
\* k steps with input 0, at most once around: what came out other than 0, each
\* with the steps before it
Met(k) == {p \in DOMAIN line.m : line.m[p] # 0 /\ InView(p) /\ LLt(Ahead(p), k)}
LRun(k, outs) ==
  /\ line.t # "none" /\ LLe(k, line.s)
  /\ TRUE = (Dl \/ \A p \in Met(k) : line.m[p] % 2 = 0)
  /\ Len(outs) = Cardinality(Met(k))
  /\ {outs[j] : j \in 1..Len(outs)} = {<<Ahead(p)[1], Ahead(p)[2], Ahead(p)[3], line.m[p]>> : p \in Met(k)}
  /\ line' = [line EXCEPT !.m = [p \in DOMAIN line.m |-> IF p \in Met(k) THEN Into(line.t, line.m[p], 0) ELSE line.m[p]],
                          !.i = Around(k)]
\* k advances of a delay line: j = i + k, (q, rem) its quotient and remainder
LGo(k, q, rem) == /\ Dl /\ EuclidOf(0, LAdd(line.i, k), line.s, q, rem)
                  /\ line' = [line EXCEPT !.i = rem]

\* ix: signed distance from the position; sum = i + ix
LReach(ix, sum, q, rem) ==
  /\ LET m == <<ix[2], ix[3], ix[4]>>
     IN IF ix[1] = 0 THEN sum = <<0>> \o LAdd(line.i, m)
        ELSE IF LLe(m, line.i) THEN sum = <<0>> \o LSub(line.i, m)
        ELSE sum = <<1>> \o LSub(m, line.i)
  /\ EuclidOf(sum[1], <<sum[2], sum[3], sum[4]>>, line.s, q, rem)
LTap(ix, sum, q, rem, v) == /\ Dl /\ LReach(ix, sum, q, rem) /\ v = LAt(Abs3(rem)) /\ UNCHANGED lvars
LLerp(fl, sum, q, rem, fr, v) ==
  /\ Dl /\ LReach(fl, sum, q, rem)
  /\ LerpOk(LAt(Abs3(rem)), LAt(Abs3(LNext(rem))), fr, 1, v) /\ UNCHANGED lvars
LPrev(i) == IF i = Zero THEN LSub(line.s, <<0, 0, 1>>) ELSE LSub(i, <<0, 0, 1>>)
\* the five cells around index i
LFive(i) == LET a == LPrev(i)
                a2 == LPrev(a)
                c == LNext(i)
                c2 == LNext(c)
            IN <<LAt(Abs3(a2)), LAt(Abs3(a)), LAt(Abs3(i)), LAt(Abs3(c)), LAt(Abs3(c2))>>
LLag(fl, sum, q, rem, p, S, v) ==
  /\ Dl /\ LReach(fl, sum, q, rem)
  /\ LagNear(LFive(rem), p + 2 * S, S, v) /\ UNCHANGED lvars

\* every cell of the memory that is not 0
LSnap(cells) ==
  LET full == {p \in DOMAIN line.m : line.m[p] # 0}
  IN /\ Len(cells) = Cardinality(full)
     /\ {cells[j] : j \in 1..Len(cells)} = {<<p[1], p[2], p[3], line.m[p]>> : p \in full}
     /\ UNCHANGED lvars
LContained == line.t # "none" => LLe(LAdd(line.b, line.s), line.n) /\ LLt(line.i, line.s)
=============================================================================
