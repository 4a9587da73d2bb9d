------------------------------- MODULE MCLines ------------------------------
(* Lines against a plain ring of integers: the same steps on a sequence, one *)
(* at a time.  Base is the place of the memory's first used cell; anchors at *)
(* limb boundaries make every sum carry.                                     *)
EXTENDS Lines
CONSTANTS N, Bases, Vals, MaxHist
VARIABLES base, ring, b, s, i, hist
mv == <<line, base, ring, b, s, i, hist>>
L(k) == <<0, k \div B, k % B>>
P(k) == L(base + k)
Plain == [k \in 1..N |-> LAt(P(k - 1))]
Kinds == {"dl", "comb", "ap"}
MCInit == /\ LinesInit /\ base \in Bases /\ ring = [k \in 1..N |-> 0] /\ b = 0 /\ s = 0 /\ i = 0 /\ hist = 0
More == hist < MaxHist /\ hist' = hist + 1 /\ UNCHANGED base
nx(j) == (j + 1) % s
Start == /\ line.n = Zero /\ LLoad(L(base + N)) /\ UNCHANGED <<base, ring, b, s, i, hist>>
Made == \E t \in Kinds, c \in 0..(N - 1), k \in 1..N :
  /\ line.n # Zero /\ line.t = "none" /\ c + k <= N /\ LNew(t, P(c), L(k))
  /\ b' = c /\ s' = k /\ i' = 0 /\ UNCHANGED <<base, ring, hist>>
Put == \E k \in 0..(N - 1), v \in Vals : /\ line.n # Zero /\ LPut(P(k), v) /\ ring' = [ring EXCEPT ![k + 1] = v]
                                        /\ UNCHANGED <<b, s, i>> /\ More
One(v, j, x) == [v EXCEPT ![b + j + 1] = Into(line.t, v[b + j + 1], x)]
Step == \E x \in Vals : /\ s > 0 /\ LStep(x, Out(line.t, ring[b + i + 1], x))
                        /\ ring' = One(ring, i, x) /\ i' = nx(i) /\ UNCHANGED <<b, s>> /\ More
RECURSIVE Steps(_, _, _)
\* <<ring, position, outputs other than 0 with their distance>> after k steps
Steps(v, j, k) ==
  IF k = 0 THEN <<v, j, <<>> >>
  ELSE LET a == Steps(v, j, k - 1)
           c == a[1][b + a[2] + 1]
       IN <<One(a[1], a[2], 0), nx(a[2]), IF c = 0 THEN a[3] ELSE Append(a[3], L(k - 1) \o <<c>>)>>
Many == \E k \in 0..s : /\ s > 0
                        /\ LET a == Steps(ring, i, k)
                           IN LRun(L(k), a[3]) /\ ring' = a[1] /\ i' = a[2]
                        /\ UNCHANGED <<b, s>> /\ More
Go == \E k \in 0..(3 * N) : /\ s > 0 /\ LGo(L(k), (i + k) \div s, L((i + k) % s))
                            /\ i' = (i + k) % s /\ UNCHANGED <<ring, b, s>> /\ More
Swap == \E c \in 0..(N - 1), k \in 1..N : /\ s > 0 /\ c + k <= N /\ LChange(P(c), L(k))
          /\ b' = c /\ s' = k /\ i' = (IF i < k THEN i ELSE 0) /\ UNCHANGED ring /\ More
MCNext == Start \/ Made \/ Put \/ Step \/ Many \/ Go \/ Swap
MCSpec == MCInit /\ [][MCNext]_mv

\* the same memory, view and position
Same == line.t # "none" => Plain = ring /\ line.b = P(b) /\ line.s = L(s) /\ line.i = L(i)
Contains == LContained
S4(k) == IF k < 0 THEN <<1>> \o L(0 - k) ELSE <<0>> \o L(k)
Cell(k) == ring[b + ((i + k) % s) + 1]
\* each read gives the ring's value and no other
Reads == (line.t = "dl" /\ s > 0) =>
  /\ \A v \in Vals : (ENABLED LRead(v)) = (v = ring[b + i + 1])
  /\ \A k \in (-2 * N)..(2 * N), v \in Vals :
       (ENABLED LTap(S4(k), S4(i + k), (i + k) \div s, L((i + k) % s), v)) = (v = Cell(k))
  /\ \A k \in (-N)..N :
       /\ ENABLED LLerp(S4(k), S4(i + k), (i + k) \div s, L((i + k) % s), 1024, <<Cell(k) * 3072 + Cell(k + 1) * 1024, 0>>)
       /\ ENABLED LLag(S4(k), S4(i + k), (i + k) \div s, L((i + k) % s), 0, 4, <<Cell(k) * 256, 0>>)
\* k steps in one are k steps: another outcome has no transition
Only == (s > 0) => \A k \in 1..s : LET a == Steps(ring, i, k)
                                   IN a[3] # <<>> => ~ENABLED LRun(L(k), <<>>)
=============================================================================
