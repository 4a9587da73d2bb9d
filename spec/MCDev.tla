------------------------------- MODULE MCDev -------------------------------
(* Exhaustive check of the delay line: it is a queue of n samples, taps     *)
(* address the history, swaps keep it inside its buffer.                    *)
EXTENDS Dev
CONSTANTS N, Vals, MaxHist
VARIABLES hist,  \* what has been pushed since the last swap, oldest first
          op
mcvars == <<mem, dev, mode, ex, hist, op>>
D == CHOOSE d \in Devs : TRUE
R == dev[D]
Regions == {<<b, n>> \in (0..(N - 1)) \X (1..N) : b + n <= N}
Push(v) == hist' = IF Len(hist) < MaxHist THEN Append(hist, v) ELSE Append(Tail(hist), v)
MCInit == /\ mem \in [1..N -> {CHOOSE v \in Vals : TRUE}] /\ mode = "i" /\ ex = TRUE /\ hist = <<>> /\ op = "init"
          /\ \E q \in Regions : dev = [d \in Devs |-> [NoDev EXCEPT !.t = "dl", !.b = q[1], !.n = q[2]]]
MCNext ==
  \/ \E v \in Vals : WriteAdv(D, v) /\ Push(v) /\ op' = "wa"
  \/ Advance(D) /\ Push(At(R, 0)) /\ op' = "adv"
  \/ Read(D, At(R, 0)) /\ op' = "rd" /\ UNCHANGED hist
  \/ \E q \in Regions : Change(D, q[1], q[2]) /\ hist' = <<>> /\ op' = "chg"
  \/ Wipe(D) /\ hist' = [j \in 1..Min2(R.n, MaxHist) |-> 0] /\ op' = "wipe"
  \/ \E c \in 0..(N - 1), v \in Vals : Poke(c, v) /\ hist' = <<>> /\ op' = "poke"
MCSpec == MCInit /\ [][MCNext]_mcvars

Fifo == Len(hist) >= R.n => At(R, 0) = hist[Len(hist) - R.n + 1]
TapsAddressHistory == \A k \in 1..R.n : k <= Len(hist) => At(R, 0 - k) = hist[Len(hist) - k + 1]
\* the bulk action is the k-fold composition of reading, writing and advancing
RECURSIVE Iter(_, _, _, _, _)
Iter(r, m, x, k, vs) ==
  IF k = 0 THEN [i |-> r.i, m |-> m, vs |-> vs]
  ELSE Iter([r EXCEPT !.i = Next1(r)], [m EXCEPT ![r.b + r.i + 1] = x], x + 1, k - 1,
            Append(vs, m[r.b + r.i + 1]))
RunIsIteration == \A k \in 0..(2 * N + 1) :
  LET it == Iter(R, mem, 7, k, <<>>)  r == R
  IN /\ it.i = (r.i + k) % r.n
     /\ \A j \in 1..k : it.vs[j] = RunOut(r, mem, 7, j)
     /\ \A c \in 1..Len(mem) : it.m[c] =
          IF c > r.b /\ c <= r.b + r.n THEN RunCell(r, mem, 7, k, c - 1 - r.b) ELSE mem[c]
TapsWrap == \A k \in (0 - 2 * N)..(2 * N) : At(R, k) = Queue(D)[(k % R.n) + 1]
IsQueue == [][
  /\ op' = "wa" => \E v \in Vals : Queue(D)' = Append(Tail(Queue(D)), v)
  /\ op' = "adv" => Queue(D)' = Append(Tail(Queue(D)), Queue(D)[1]) /\ mem' = mem
  /\ op' = "rd" => dev' = dev /\ mem' = mem
  /\ op' = "chg" => mem' = mem /\ dev'[D].i = IF R.i < dev'[D].n THEN R.i ELSE 0]_mcvars
\* nothing outside the current buffer ever changes
Frame == [][op' # "poke" => \A c \in 1..N : mem'[c] # mem[c] => c - 1 >= R.b /\ c - 1 < R.b + R.n]_mcvars
=============================================================================
