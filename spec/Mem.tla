-------------------------------- MODULE Mem --------------------------------
(* Sample memory and the slices (views) onto it: creation, copying,         *)
(* reassignment, checked / unchecked / wrapped access, sub-slices and       *)
(* interpolated reads.  One action per public operation of MemorySlice;     *)
(* the operation's result is an argument of the action.                     *)
(*                                                                          *)
(* Cells hold integers.  Traces about exact transport (C01-C03) record the  *)
(* 32-bit pattern of the float; traces about interpolation (C04, C05)       *)
(* record integer sample values.                                            *)
EXTENDS Interp

CONSTANT Handles
VARIABLES mem,  \* 1-based sequence of cells
          sl    \* [Handles -> [b, n, null]]  first cell (0-based), length
mvars == <<mem, sl>>

Null == [b |-> -1, n |-> 0, null |-> TRUE]
View(b, n) == [b |-> b, n |-> n, null |-> FALSE]
Cell(s, i) == mem[s.b + i + 1]

MemInit == mem = <<>> /\ sl = [x \in Handles |-> Null]

Load(m) == mem' = m /\ UNCHANGED sl
\* create from / reassign to b..b+n-1
Make(x, b, n) == /\ b >= 0 /\ n >= 0 /\ b + n <= Len(mem)
                 /\ sl' = [sl EXCEPT ![x] = View(b, n)] /\ UNCHANGED mem
MakeNull(x) == sl' = [sl EXCEPT ![x] = Null] /\ UNCHANGED mem
Copy(d, x) == sl' = [sl EXCEPT ![d] = sl[x]] /\ UNCHANGED mem

Length(x, r) == r = sl[x].n /\ UNCHANGED mvars
Raw(x, b, n) == b = sl[x].b /\ n = sl[x].n /\ UNCHANGED mvars
Snapshot(m, g) == m = mem /\ g = 1 /\ UNCHANGED mvars

(* ---- checked element access (C01) ---- *)
GetRes(s, i) == IF i >= s.n THEN Err("Index") ELSE Ok(Cell(s, i))
Get(x, i, r) == r = GetRes(sl[x], i) /\ UNCHANGED mvars
SetRes(s, i) == IF i >= s.n THEN Err("Index") ELSE Ok(0)
Set(x, i, v, r) ==
  /\ r = SetRes(sl[x], i)
  /\ mem' = IF r.k = "ok" THEN [mem EXCEPT ![sl[x].b + i + 1] = v] ELSE mem
  /\ UNCHANGED sl

(* ---- unchecked element access, only defined inside the slice ---- *)
GetU(x, i, v) == i < sl[x].n /\ v = Cell(sl[x], i) /\ UNCHANGED mvars
SetU(x, i, v) == /\ i < sl[x].n
                 /\ mem' = [mem EXCEPT ![sl[x].b + i + 1] = v] /\ UNCHANGED sl

(* ---- sub-slices (C02) ---- *)
(* A range ending exactly at the parent's end may be granted or refused:    *)
(* the documentation does not say, and either keeps the child inside.       *)
SubAllowed(s, off, n) ==
  IF off >= s.n THEN {"Index"}
  ELSE IF n > s.n - off THEN {"Length"}
  ELSE IF n < s.n - off THEN {"ok"} ELSE {"ok", "Length"}
SubRes(s, off, n) == {IF o = "ok" THEN Ok(0) ELSE Err(o) : o \in SubAllowed(s, off, n)}
Sub(d, x, off, n, r) ==
  /\ r \in SubRes(sl[x], off, n)
  /\ sl' = IF r.k = "ok" THEN [sl EXCEPT ![d] = View(sl[x].b + off, n)] ELSE sl
  /\ UNCHANGED mem

(* ---- wrapped access (C03); ix is a limb-encoded signed index ---- *)
WrapCell(s, i) == Cell(s, i % s.n)          \* i any (small) integer
Wrapped(x, ix, v) == /\ sl[x].n > 0 /\ v = Cell(sl[x], LimbMod(ix, sl[x].n))
                     /\ UNCHANGED mvars
Four(x, ix, vs) ==
  /\ sl[x].n > 0
  /\ LET m == LimbMod(ix, sl[x].n)
     IN vs = [j \in 1..4 |-> WrapCell(sl[x], m + j - 1)]
  /\ UNCHANGED mvars

(* ---- linear interpolation (C04) ----                                     *)
(* positions have a limb-encoded floor, wrapped to Fl                       *)
Fl(x, fl) == LimbMod(fl, sl[x].n)
LerpW(x, fl, fr, ex, v) ==
  /\ sl[x].n > 0
  /\ LerpOk(WrapCell(sl[x], Fl(x, fl)), WrapCell(sl[x], Fl(x, fl) + 1), fr, ex, v)
  /\ UNCHANGED mvars
\* checked: cls is "fin", "inf" or "-inf"; r.v is the recorded value
LerpInside(s, cls, fl, fr, ex) ==
  cls = "fin" /\ fl >= 0 /\ (fl < s.n - 1 \/ (fl = s.n - 1 /\ fr = 0 /\ ex = 1))
LerpC(x, cls, lf, fr, ex, k, e, v) ==
  LET fl == LimbSmall(lf) IN
  /\ IF LerpInside(sl[x], cls, fl, fr, ex)
       THEN /\ k = "ok"
            /\ LET a == Cell(sl[x], fl)
                   b == IF fl = sl[x].n - 1 THEN a ELSE Cell(sl[x], fl + 1)
               IN LerpOk(a, b, fr, ex, v)
       ELSE k = "err" /\ e = "Index"
  /\ UNCHANGED mvars
LerpU(x, lf, fr, ex, v) ==
  LET fl == LimbSmall(lf) IN
  /\ fl >= 0 /\ fl < sl[x].n - 1
  /\ LerpOk(Cell(sl[x], fl), Cell(sl[x], fl + 1), fr, ex, v)
  /\ UNCHANGED mvars

\* any of the linear reads at i + p/2^k between cells a and b
LerpFine(a, b, p, k, v) == FineOk(a, b, p, k, v) /\ UNCHANGED mvars

(* ---- Lagrange interpolation (C05) ---- *)
Basis(w, p, S, y) == BasisOk(w, p, S, y) /\ UNCHANGED mvars
Mix(d, z, v) == MixOk(d, z, v) /\ UNCHANGED mvars
\* free function over given samples
Lag(d, p, S, v) == LagNear(d, p, S, v) /\ UNCHANGED mvars
\* the w wrapped samples that begin (w-1)/2 before floor
Window(s, fl, w) == [j \in 1..w |-> WrapCell(s, fl - (w - 1) \div 2 + j - 1)]
LagW(x, fl, fq, S, w, v) ==
  /\ sl[x].n > 0 /\ w >= 2
  /\ LET ww == Min2(w, 100)
     IN IF fq = 0 THEN IsExact(v, WrapCell(sl[x], Fl(x, fl)) * 256)
                  ELSE LagNear(Window(sl[x], Fl(x, fl), ww), fq + S * ((ww - 1) \div 2), S, v)
  /\ UNCHANGED mvars
Lag4(x, fl, fq, S, v) ==
  /\ sl[x].n > 0
  /\ LagNear([j \in 1..4 |-> WrapCell(sl[x], Fl(x, fl) + j - 1)], fq, S, v)
  /\ UNCHANGED mvars

(* ---- what the design must guarantee (checked by TLC on MCMem) ---- *)
Contained == \A x \in Handles :
  sl[x].null \/ (sl[x].b >= 0 /\ sl[x].n >= 0 /\ sl[x].b + sl[x].n <= Len(mem))
Cells(s) == IF s.null THEN {} ELSE s.b .. (s.b + s.n - 1)
===========================================================================
