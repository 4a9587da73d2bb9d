------------------------------- MODULE MCBits -------------------------------
(* Design model: all reductions of a set of words covering every exponent   *)
(* and many mantissas; the bit-clearing definitions against multiplication  *)
(* and division on the scaled integer.                                      *)
EXTENDS Bits
CONSTANTS Exps, Mants
VARIABLES orig, kind, dep
mv == <<reg, orig, kind, dep>>
MCInit == \E s \in 0..1 : \E e \in Exps : \E m \in Mants :
            reg = Join(s, e, m) /\ orig = reg /\ kind = "none" /\ dep = 0
MCNext == /\ kind = "none" /\ orig' = orig
          /\ \E d \in 0..31 : /\ dep' = d
               /\ \/ kind' = "lin" /\ ~IsNaNW(reg) /\ Linear(d, "ok", "", Lin(reg, d), Lin(reg, d))
                  \/ kind' = "exp" /\ Exponential(d, "ok", "", ExpRed(reg, d), ExpRed(reg, d))
MCSpec == MCInit /\ [][MCNext]_mv
Mag(w) == <<w[1] % 32768, w[2]>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Fields == Join(SignOf(reg), ExpOf(reg), MantOf(reg)) = reg /\ SignOf(reg) \in 0..1 /\ ExpOf(reg) \in 0..255 /\ MantOf(reg) < 8388608
Idempotent == kind = "lin" => Lin(reg, dep) = reg
Shrinks == kind # "none" => Leq(Mag(reg), Mag(orig)) /\ SignOf(reg) = SignOf(orig)
IdempotentE == kind = "exp" => ExpRed(reg, dep) = reg
\* against arithmetic on the scaled integer (inputs of 2^-8 up to 1)
Scaled(w) == (8388608 + MantOf(w)) * Pow2(ExpOf(w) - 119)
Arithmetic == (kind = "lin" /\ ExpOf(orig) \in 119..126 /\ dep > 0) =>
  LET x == Scaled(orig)
      y == (x \div Pow2(dep)) * Pow2(dep)
  IN IF y = 0 THEN IsZeroW(reg) ELSE ExpOf(reg) >= 119 /\ Scaled(reg) = y
\* small inputs vanish, 1 is kept
Ends == kind = "lin" => /\ (dep > 0 /\ ExpOf(orig) < 96 + dep => IsZeroW(reg))
                        /\ (IsZeroW(orig) => reg = orig)
                        /\ (Mag(orig) = <<16256, 0>> => reg = orig)
ExpArithmetic == kind = "exp" => /\ MantOf(reg) % Pow2(dep) = 0 /\ MantOf(orig) - MantOf(reg) \in 0..(Pow2(dep) - 1)
                                 /\ ExpOf(reg) = ExpOf(orig)
ExpSet == {0, 1, 2, 88, 95, 96, 97, 98, 110, 118, 119, 120, 121, 125, 126, 127, 128, 254, 255}
MantSet == {0, 1, 2, 3, 255, 256, 65535, 65536, 4194303, 4194304, 4194305, 8388607, 8388606, 5592405, 2796202, 7654321, 1234567}
ExpAll == 0..255
=============================================================================
