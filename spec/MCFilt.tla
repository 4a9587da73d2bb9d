------------------------------- MODULE MCFilt ------------------------------
(* The comb and all-pass filters, as specified with ring buffer and state,  *)
(* satisfy their input/output recurrences; the all-pass is bounded.         *)
EXTENDS Dev
CONSTANTS T, NS, Fbs, Dms, Len0
VARIABLES xs, ys
mcvars == <<mem, dev, mode, ex, xs, ys>>
D == CHOOSE d \in Devs : TRUE
R == dev[D]
MCInit == \E n \in NS, fb \in Fbs, dm \in Dms :
  /\ mem = [j \in 1..n |-> 0] /\ mode = "x" /\ ex = TRUE /\ xs = <<>> /\ ys = <<>>
  /\ dev = [d \in Devs |-> [NoDev EXCEPT !.t = T, !.n = n, !.fb = 128 * fb, !.dm = 128 * dm]]
FbSet == {0, 64, 128, -128, 256}
In == {-65536, 0, 65536}
Tick(x, y) == /\ IF T = "comb" THEN CombTick(D, x, <<y, 0>>) ELSE ApTick(D, x, <<y, 0>>)
              /\ xs' = Append(xs, x) /\ ys' = Append(ys, y)
MCNext == /\ Len(xs) < Len0
          /\ \E x \in In : Tick(x, IF T = "comb" THEN At(R, 0) ELSE At(R, 0) - x)
MCSpec == MCInit /\ [][MCNext]_mcvars
Xa(k) == IF k >= 1 THEN xs[k] ELSE 0
Ya(k) == IF k >= 1 THEN ys[k] ELSE 0
\* y[t] = x[t-n] + fb(1-dm) y[t-n] + dm (y[t-1] - x[t-n-1])      (times 16)
CombEq == T = "comb" => \A t \in 1..Len(ys) :
  Abs(16 * (Ya(t) - Xa(t - R.n)) - (
    (R.fb \div 8192) * (4 - R.dm \div 8192) * Ya(t - R.n)
      + 4 * (R.dm \div 8192) * (Ya(t - 1) - Xa(t - R.n - 1))))
      <= IF ex THEN 0 ELSE 16 * 8   \* the specification's own rounding
\* y[t] = -x[t] + 3/2 x[t-n] + 1/2 y[t-n]
ApEq == T = "ap" => \A t \in 1..Len(ys) :
  2 * Ya(t) = 3 * Xa(t - R.n) - 2 * Xa(t) + Ya(t - R.n)
\* the long run is the k-fold composition of ticks without input
RECURSIVE Quiet(_, _, _, _)
Quiet(r, m, k, ys0) ==
  IF k = 0 THEN <<r.i, r.s, m, ys0>>
  ELSE LET o == m[r.i + 1]
           s2 == IF T = "comb" THEN Mul(o, One - r.dm) + Mul(r.s, r.dm) ELSE r.s
           w == IF T = "comb" THEN Mul(s2, r.fb) ELSE Mul(o, One \div 2)
       IN Quiet([r EXCEPT !.i = Next1(r), !.s = s2], [m EXCEPT ![r.i + 1] = w], k - 1,
                Append(ys0, o))
HoldIsIteration == Holds(R) /\ ex => \A k \in 1..(2 * R.n + 1) :
  LET q == Quiet(R, mem, k, <<>>)
      vs == [j \in 1..Min2(k, R.n) |-> <<q[4][j], 0>>]
  IN /\ ENABLED HoldRun(D, k, vs, 0)
     /\ \A j \in (R.n + 1)..k : q[4][j] = q[4][j - R.n]
     /\ q[3] = mem /\ q[1] = (R.i + k) % R.n
     /\ q[2] = (IF T = "comb" THEN At(R, k - 1) ELSE R.s)
     /\ ~ENABLED HoldRun(D, k, [vs EXCEPT ![1] = <<vs[1][1] + 1, 0>>], 0)
\* within this depth nothing is rounded
Exact == ex
Bounded == R.fb < One => \A t \in 1..Len(ys) : Abs(ys[t]) <= 3 * 65536
=============================================================================
