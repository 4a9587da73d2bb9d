-------------------------------- MODULE Giant -------------------------------
(* Slices too long for small integers: lengths, offsets and indices are     *)
(* sequences of three 22-bit limbs <<l2, l1, l0>>, a signed index has a      *)
(* leading sign <<neg, l2, l1, l0>>.  Memory is sparse: cells never written  *)
(* hold 0.  The laws are those of Mem (C01 - C05); what is new is that they  *)
(* hold where an index no longer fits 16, 24 (the integers of a float) or    *)
(* 32 bits.                                                                 *)
EXTENDS Interp, Limb

VARIABLE giant  \* [n: cells, m: position -> value written, v: view -> [b, n]]
gvars == <<giant>>

Magn(ix) == <<ix[2], ix[3], ix[4]>>
\* ix = q * n + r and 0 <= r < n: r is the Euclidean remainder
Euclid(ix, n, q, r) == EuclidOf(ix[1], Magn(ix), n, q, r)

GNull == [b |-> Zero, n |-> Zero]
GiantInit == giant = [n |-> Zero, m |-> <<>>, v |-> [x \in 0..2 |-> GNull]]
GCell(s, i) == LET p == LAdd(s.b, i) IN IF p \in DOMAIN giant.m THEN giant.m[p] ELSE 0
GNext(i, s) == LET j == LInc(i, 1) IN IF j = s.n THEN Zero ELSE j
V(x) == giant.v[x]

GLoad(n) == giant' = [n |-> n, m |-> <<>>, v |-> [x \in 0..2 |-> GNull]]
GMake(x, b, n) == LLe(LAdd(b, n), giant.n) /\ giant' = [giant EXCEPT !.v[x] = [b |-> b, n |-> n]]
GLen(x, n) == n = V(x).n /\ UNCHANGED gvars

\* r: outcome [k, e, v]
GGet(x, i, r) == /\ r = (IF LLt(i, V(x).n) THEN Ok(GCell(V(x), i)) ELSE Err("Index"))
                 /\ UNCHANGED gvars
GSet(x, i, w, r) ==
  IF LLt(i, V(x).n)
    THEN r = Ok(0) /\ giant' = [giant EXCEPT !.m = (LAdd(V(x).b, i) :> w) @@ giant.m]
    ELSE r = Err("Index") /\ UNCHANGED gvars

GSubAllowed(s, off, n) ==
  IF LLe(s.n, off) THEN {"Index"}
  ELSE LET room == LSub(s.n, off)
       IN IF LLt(room, n) THEN {"Length"} ELSE IF LLt(n, room) THEN {"ok"} ELSE {"ok", "Length"}
GSub(d, x, off, n, r) ==
  /\ r \in {IF o = "ok" THEN Ok(0) ELSE Err(o) : o \in GSubAllowed(V(x), off, n)}
  /\ giant' = IF r.k = "ok" THEN [giant EXCEPT !.v[d] = [b |-> LAdd(V(x).b, off), n |-> n]] ELSE giant

\* q and rem witness the remainder
GWrapped(x, ix, q, rem, v) == /\ Euclid(ix, V(x).n, q, rem) /\ v = GCell(V(x), rem) /\ UNCHANGED gvars
GFour(x, ix, q, rem, vs) ==
  /\ Euclid(ix, V(x).n, q, rem)
  /\ LET s == V(x)
         i1 == GNext(rem, s)
         i2 == GNext(i1, s)
         i3 == GNext(i2, s)
     IN vs = <<GCell(s, rem), GCell(s, i1), GCell(s, i2), GCell(s, i3)>>
  /\ UNCHANGED gvars
\* linear: floor fl, fraction fr/4096
GLerpW(x, fl, q, rem, fr, ex, v) ==
  /\ Euclid(fl, V(x).n, q, rem)
  /\ LerpOk(GCell(V(x), rem), GCell(V(x), GNext(rem, V(x))), fr, ex, v)
  /\ UNCHANGED gvars
GInside(s, fl, fr, ex) == /\ fl[1] = 0 /\ LLt(Magn(fl), s.n)
                          /\ (LLt(LInc(Magn(fl), 1), s.n) \/ (fr = 0 /\ ex = 1))
GLerp(x, fl, fr, ex, k, e, v) ==
  /\ IF GInside(V(x), fl, fr, ex)
       THEN k = "ok" /\ LerpOk(GCell(V(x), Magn(fl)), GCell(V(x), LInc(Magn(fl), 1)), fr, ex, v)
       ELSE k = "err" /\ e = "Index"
  /\ UNCHANGED gvars
\* Lagrange at a sample, whichever form and window
GAtSample(x, fl, q, rem, v) ==
  /\ Euclid(fl, V(x).n, q, rem) /\ IsExact(v, GCell(V(x), rem) * 256) /\ UNCHANGED gvars
\* w points around a position; p/S its fraction
RECURSIVE GRun(_, _, _)
GRun(s, i, w) == IF w = 0 THEN <<>> ELSE <<GCell(s, i)>> \o GRun(s, GNext(i, s), w - 1)
\* (q, rem) witness the first sample of the window, back samples below fl
GWindow(x, first, q, rem, w, p, S, v) ==
  /\ Euclid(first, V(x).n, q, rem)
  /\ LagNear(GRun(V(x), rem, w), p, S, v)
  /\ UNCHANGED gvars

GContained == \A x \in 0..2 : LLe(LAdd(V(x).b, V(x).n), giant.n)
=============================================================================
