-------------------------------- MODULE Bits --------------------------------
(* Floats as bit patterns: lossless conversions (C23), linear (C24) and     *)
(* exponential (C25) bit reduction.  The state is one float register, so    *)
(* that reductions and conversions compose.  Words are <<hi, lo>> of 16     *)
(* bits.                                                                    *)
EXTENDS Base

VARIABLE reg
bvars == <<reg>>

SignOf(w) == w[1] \div 32768
ExpOf(w) == (w[1] \div 128) % 256
MantOf(w) == (w[1] % 128) * 65536 + w[2]
Join(s, e, m) == <<s * 32768 + e * 128 + (m \div 65536), m % 65536>>
IsNaNW(w) == ExpOf(w) = 255 /\ MantOf(w) # 0
IsZeroW(w) == w[1] % 32768 = 0 /\ w[2] = 0
Outside(w) == ExpOf(w) > 127 \/ (ExpOf(w) = 127 /\ MantOf(w) > 0)

ClearLow(m, k) == (m \div Pow2(k)) * Pow2(k)

\* ---- linear reduction by d bits of an input in [-1, 1] ----
\* x = m24 * 2^(e-150); in units of 2^-31 it is m24 * 2^(e-119), so rounding
\* down to a multiple of 2^d of these units clears the d-(e-119) lowest bits
LinBits(w, d) == d - (Max2(ExpOf(w), 1) - 119)
LinZero(w, d) == LET k == LinBits(w, d)
                 IN \/ k >= 24
                    \/ ExpOf(w) = 0 /\ ClearLow(MantOf(w), Max2(k, 0)) = 0
Lin(w, d) ==
  IF d = 0 THEN w
  ELSE IF LinZero(w, d) THEN Join(SignOf(w), 0, 0)
  ELSE Join(SignOf(w), ExpOf(w), ClearLow(MantOf(w), Max2(LinBits(w, d), 0)))
SameW(v, w, d) == v = w \/ (d > 0 /\ IsZeroW(v) /\ IsZeroW(w))

\* ---- exponential reduction ----
ExpRed(w, d) == Join(SignOf(w), ExpOf(w), ClearLow(MantOf(w), d))

BitsInit == reg = <<0, 0>>
Load(w) == reg' = w
Convert(raw, dec, f, u, jf, ju) ==
  /\ raw = reg /\ dec = reg /\ jf = reg /\ ju = reg
  /\ f = <<SignOf(reg), ExpOf(reg), MantOf(reg)>> /\ u = f
  /\ UNCHANGED reg
Assemble(s, e, m, jf, ju) == jf = Join(s, e, m) /\ ju = jf /\ reg' = jf
\* k, e: outcome of the checked form; v, u: results of checked and unchecked
Linear(d, k, e, v, u) ==
  IF d > 30 THEN k = "err" /\ e = "OverBitReduction" /\ UNCHANGED reg
  ELSE IF Outside(reg) THEN k = "err" /\ e = "InputExceedsRange" /\ UNCHANGED reg
  ELSE /\ k = "ok" /\ SameW(v, Lin(reg, d), d) /\ SameW(u, Lin(reg, d), d)
       /\ reg' = v
Exponential(d, k, e, v, u) ==
  IF d > 23 THEN k = "err" /\ e = "OverBitReduction" /\ UNCHANGED reg
  ELSE k = "ok" /\ v = ExpRed(reg, d) /\ u = v /\ reg' = v
=============================================================================
