------------------------------- MODULE Base -------------------------------
(* Helpers shared by every module: results, encoded float values, integer  *)
(* arithmetic that stays inside TLC's 32-bit integers.                     *)
EXTENDS Arith, Sequences, FiniteSets, TLC

(* A recorded float is <<n, c>> relative to a scale 2^k fixed per module:   *)
(*   c=0 exactly n/2^k, c=1 nearest integer, c=2 NaN, 3 +inf, 4 -inf,       *)
(*   c=5 magnitude beyond the scale's range.                                *)
IsExact(v, n) == v = <<n, 0>>
IsFinite(v) == v[2] \in {0, 1}
Near(v, n, tol) == IsFinite(v) /\ v[1] >= n - tol /\ v[1] <= n + tol
IsNaN(v) == v[2] = 2

Ok(v) == [k |-> "ok", e |-> "", v |-> v]
Err(e) == [k |-> "err", e |-> e, v |-> 0]

(* Index of arbitrary size, sign and magnitude in base 2^22 limbs           *)
(* <<neg, l2, l1, l0>>; Euclidean remainder by n < 2^19.                    *)
LimbMod(ix, n) ==
  LET M(x, y) == (((x * 2048) % n) * 2048 + y) % n
      m == M(M(ix[2] % n, ix[3]), ix[4])
  IN IF ix[1] = 0 THEN m ELSE (n - m) % n
\* a limb-encoded index that is small, as an integer (otherwise far out)
LimbSmall(ix) == IF ix[2] = 0 /\ ix[3] = 0 THEN (IF ix[1] = 0 THEN ix[4] ELSE 0 - ix[4])
                 ELSE IF ix[1] = 0 THEN 1073741824 ELSE 0 - 1073741824
===========================================================================
