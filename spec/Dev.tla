-------------------------------- MODULE Dev --------------------------------
(* Ring-buffer devices: delay line, feedback comb filter, all-pass filter.  *)
(* All devices live on one sample memory; each owns a view [b, b+n) of it   *)
(* and a position.  mode says how cells are to be read: "b" bit patterns,   *)
(* "i" integer samples, "x" fixed point at scale 2^16.                      *)
EXTENDS Interp

CONSTANT Devs
VARIABLES mem, dev, mode,
          ex      \* all arithmetic so far was exact in single precision
dvars == <<mem, dev, mode, ex>>

F == 65536
NoDev == [t |-> "none", b |-> 0, n |-> 0, i |-> 0, s |-> 0, fb |-> 16384, dm |-> 16384]
DevInit == mem = <<>> /\ dev = [d \in Devs |-> NoDev] /\ mode = "b" /\ ex = TRUE

Load(m, md) == mem' = m /\ mode' = md /\ UNCHANGED <<dev, ex>>
InMem(b, n) == b >= 0 /\ n >= 1 /\ b + n <= Len(mem)
New(d, t, b, n) ==
  /\ InMem(b, n)
  /\ dev' = [dev EXCEPT ![d] = [NoDev EXCEPT !.t = t, !.b = b, !.n = n]]
  /\ UNCHANGED <<mem, mode, ex>>
CopyDev(d, e) == dev' = [dev EXCEPT ![d] = dev[e]] /\ UNCHANGED <<mem, mode, ex>>
\* a slice (begin p or -1 for null, length n) after the copy, and the copy
SliceCopy(p, n, c) == c = <<p, n, p, n>> /\ UNCHANGED <<mem, mode, ex, dev>>
\* the value and a copy of it, put to the same uses over the same samples: eq
Twin(d, eq) == eq = 1 /\ UNCHANGED <<mem, mode, ex, dev>>
Swap(d, e) == dev' = [dev EXCEPT ![d] = dev[e], ![e] = dev[d]] /\ UNCHANGED <<mem, mode, ex>>

At(r, k) == mem[r.b + ((r.i + k) % r.n) + 1]     \* cell k places on, k signed
Next1(r) == IF r.i = r.n - 1 THEN 0 ELSE r.i + 1
Put(r, v) == [mem EXCEPT ![r.b + r.i + 1] = v]

Live(d, t) == dev[d].t = t

(* ---- delay line (C06, C07) ---- *)
\* a cell as read back; beside filters (mode x) it may carry their rounding
CellOk(v, w) == IF mode = "x" /\ ~ex THEN Abs(v - w) <= 64 ELSE v = w
Read(d, v) == Live(d, "dl") /\ CellOk(v, At(dev[d], 0)) /\ UNCHANGED dvars
WriteAdv(d, v) == /\ Live(d, "dl")
                  /\ mem' = Put(dev[d], v)
                  /\ dev' = [dev EXCEPT ![d].i = Next1(dev[d])]
                  /\ UNCHANGED <<mode, ex>>
Advance(d) == /\ Live(d, "dl") /\ dev' = [dev EXCEPT ![d].i = Next1(dev[d])]
              /\ UNCHANGED <<mem, mode, ex>>
\* k reads, each followed by writing and advancing (x, x+1, ... written):
\* the k-fold composition of Read and WriteAdv (MCDev checks that it is)
RunCell(r, m, x, k, c) ==        \* cell c (0-based in the view) afterwards
  LET a == (c - r.i) % r.n       \* first written after a advances
  IN IF a < k THEN x + a + ((k - 1 - a) \div r.n) * r.n ELSE m[r.b + c + 1]
RunOut(r, m, x, j) == IF j <= r.n THEN m[r.b + ((r.i + j - 1) % r.n) + 1] ELSE x + j - 1 - r.n
WriteRun(d, x, k, vs) ==
  /\ Live(d, "dl")
  /\ LET r == dev[d] IN
     /\ Len(vs) = k
     /\ TRUE = (\A j \in 1..k : vs[j] = RunOut(r, mem, x, j))
     /\ mem' = [c \in 1..Len(mem) |->
                  IF c > r.b /\ c <= r.b + r.n THEN RunCell(r, mem, x, k, c - 1 - r.b) ELSE mem[c]]
     /\ dev' = [dev EXCEPT ![d].i = (r.i + k) % r.n]
  /\ UNCHANGED <<mode, ex>>
\* offset as sign and 22-bit limbs
Tap(d, k, v) == /\ Live(d, "dl")
                /\ CellOk(v, At(dev[d], LimbMod(k, dev[d].n))) /\ UNCHANGED dvars
LerpTap(d, fl, fr, x, v) ==
  /\ Live(d, "dl")
  /\ LET f == LimbMod(fl, dev[d].n)
     IN LerpOk(At(dev[d], f), At(dev[d], f + 1), fr, x, v)
  /\ UNCHANGED dvars
\* five taps centred on the floor
LagTap(d, fl, p, S, v) ==
  /\ Live(d, "dl")
  /\ LET f == LimbMod(fl, dev[d].n)
     IN IF p = 0 THEN IsExact(v, At(dev[d], f) * 256)
        ELSE LagNear([j \in 1..5 |-> At(dev[d], f + j - 3)], p + 2 * S, S, v)
  /\ UNCHANGED dvars
\* the weights of the five cells, at any finer fraction, and a sum with them
TapWeights(w, p, S, y) == w = 5 /\ BasisOk(w, p, S, y) /\ UNCHANGED dvars
TapMix(d, z, v) == MixOk(d, z, v) /\ UNCHANGED dvars
Length(d, r) == Live(d, "dl") /\ r = dev[d].n /\ UNCHANGED dvars
Raw(d, b, n) == b = dev[d].b /\ n = dev[d].n /\ UNCHANGED dvars

(* ---- samples put into the memory from outside: through a slice of it, or *)
(* through the raw buffer of a device; a whole buffer cleared ---- *)
Poke(c, v) == c \in 0..(Len(mem) - 1) /\ mem' = [mem EXCEPT ![c + 1] = v] /\ UNCHANGED <<dev, mode, ex>>
Wipe(d) == /\ dev[d].t # "none"
           /\ mem' = [c \in 1..Len(mem) |-> IF c > dev[d].b /\ c <= dev[d].b + dev[d].n THEN 0 ELSE mem[c]]
           /\ UNCHANGED <<dev, mode, ex>>

(* ---- new buffer at any moment (C08) ---- *)
Change(d, b, n) ==
  /\ dev[d].t # "none" /\ InMem(b, n)
  /\ dev' = [dev EXCEPT ![d].b = b, ![d].n = n,
                        ![d].i = IF dev[d].i < n THEN dev[d].i ELSE 0]
  /\ UNCHANGED <<mem, mode, ex>>

(* ---- comb filter (C09); feedback and damping in 1/32768 ---- *)
SetFb(d, k) == Live(d, "comb") /\ dev' = [dev EXCEPT ![d].fb = k] /\ UNCHANGED <<mem, mode, ex>>
SetDm(d, k) == Live(d, "comb") /\ dev' = [dev EXCEPT ![d].dm = k] /\ UNCHANGED <<mem, mode, ex>>

\* products exact on the 2^-16 grid and everything within 24 bits
Fits(v) == Abs(v) < 16777216
One == 32768
Mul(a, k) == MulShrS(a, k * 8192, 28)  \* a * k / One, |a| < 2^30, |k| <= 2 * One
ExMul(a, k) == ((a % One) * (k % One)) % One = 0

\* an output is right if equal (exact so far) or within 64/65536 otherwise
OutOk(v, w, e) == IF e THEN IsExact(v, w) ELSE Near(v, w, 64)

CombStep(r, x) ==
  LET o == At(r, 0)
      s2 == Mul(o, One - r.dm) + Mul(r.s, r.dm)
      w == x + Mul(s2, r.fb)
      e == /\ ExMul(o, One - r.dm) /\ ExMul(r.s, r.dm) /\ ExMul(s2, r.fb)
           /\ Fits(Mul(o, One - r.dm)) /\ Fits(Mul(r.s, r.dm)) /\ Fits(s2)
           /\ Fits(Mul(s2, r.fb)) /\ Fits(w)
  IN [o |-> o, s |-> s2, w |-> w, e |-> e]
CombTick(d, x, v) ==
  /\ Live(d, "comb")
  /\ LET r == dev[d]  c == CombStep(r, x)
     IN /\ OutOk(v, c.o, ex)
        /\ mem' = Put(r, c.w)
        /\ dev' = [dev EXCEPT ![d].s = c.s, ![d].i = Next1(r)]
        /\ ex' = (ex /\ c.e)
        /\ UNCHANGED mode

(* ---- all-pass filter (C10) ---- *)
ApStep(r, x) ==
  LET o == At(r, 0)
      w == x + Mul(o, One \div 2)
      e == o % 2 = 0 /\ Fits(w) /\ Fits(o - x)
  IN [o |-> o - x, w |-> w, e |-> e, eo |-> Fits(o - x)]
ApTick(d, x, v) ==
  /\ Live(d, "ap")
  /\ LET r == dev[d]  c == ApStep(r, x)
     IN /\ OutOk(v, c.o, ex /\ c.eo)
        /\ mem' = Put(r, c.w)
        /\ dev' = [dev EXCEPT ![d].i = Next1(r)]
        /\ ex' = (ex /\ c.e)
        /\ UNCHANGED mode

(* ---- long runs without input (C09, C10): a comb that feeds everything     *)
(* back goes round and round, a silent all-pass stays silent.  vs: the      *)
(* outputs of the first lap; df: later outputs unlike the one a lap before  *)
Holds(r) == IF r.t = "comb" THEN r.fb = One /\ r.dm = 0
            ELSE \A c \in 1..r.n : mem[r.b + c] = 0
HoldRun(d, k, vs, df) ==
  /\ dev[d].t \in {"comb", "ap"} /\ k >= 1 /\ ex /\ df = 0
  /\ LET r == dev[d] IN
     /\ Holds(r)
     /\ Len(vs) = Min2(k, r.n)
     /\ TRUE = (\A j \in 1..Len(vs) : IsExact(vs[j], At(r, j - 1)))
     /\ dev' = [dev EXCEPT ![d].i = (r.i + k) % r.n,
                           ![d].s = IF r.t = "comb" THEN At(r, k - 1) ELSE r.s]
  /\ UNCHANGED <<mem, mode, ex>>
\* k advances of a delay line
AdvanceRun(d, k) == /\ Live(d, "dl") /\ dev' = [dev EXCEPT ![d].i = (dev[d].i + k) % dev[d].n]
                    /\ UNCHANGED <<mem, mode, ex>>

(* the whole memory, and the guard zones around it untouched *)
Snapshot(m, me, g) ==
  /\ g = 1
  /\ Len(m) = Len(mem)
  /\ IF mode # "x" \/ ex THEN m = mem /\ me = 0
     ELSE me <= 1 /\ TRUE = (\A j \in 1..Len(m) : Abs(m[j] - mem[j]) <= 64)
  /\ UNCHANGED dvars

(* ---- design properties ---- *)
Contained == \A d \in Devs : dev[d].t # "none" =>
   /\ dev[d].b >= 0 /\ dev[d].b + dev[d].n <= Len(mem)
   /\ dev[d].i \in 0..(dev[d].n - 1)
\* the delay line's content as a queue, oldest first
Queue(d) == [j \in 1..dev[d].n |-> At(dev[d], j - 1)]
=============================================================================
