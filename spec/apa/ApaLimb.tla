------------------------------- MODULE ApaLimb ------------------------------
(* The limb arithmetic of Giant, for all limbs, against unbounded integers.  *)
EXTENDS Integers, Limb
VARIABLES
  \* @type: <<Int, Int, Int>>;
  a,
  \* @type: <<Int, Int, Int>>;
  c,
  \* @type: <<Int, Int, Int>>;
  n,
  \* @type: Int;
  q,
  \* @type: Int;
  neg
\* @type: <<Int, Int, Int>> => Int;
Val(x) == x[1] * 17592186044416 + x[2] * 4194304 + x[3]
\* @type: <<Int, Int, Int>> => Bool;
IsLimb(x) == x[1] >= 0 /\ x[1] < B /\ x[2] >= 0 /\ x[2] < B /\ x[3] >= 0 /\ x[3] < B
\* @type: <<Int, Int, Int>> => Bool;
Low(x) == x[2] >= 0 /\ x[2] < B /\ x[3] >= 0 /\ x[3] < B
Init == \E i, j, k, u, v, w, x, y, z \in Int :
  /\ a = <<i, j, k>> /\ c = <<u, v, w>> /\ n = <<x, y, z>>
  /\ q \in Int /\ neg \in {0, 1}
  /\ IsLimb(a) /\ IsLimb(c) /\ IsLimb(n)
Next == UNCHANGED <<a, c, n, q, neg>>
Order == LLt(a, c) = (Val(a) < Val(c)) /\ LLe(a, c) = (Val(a) <= Val(c))
Sum == Val(LAdd(a, c)) = Val(a) + Val(c) /\ Low(LAdd(a, c))
Difference == LLe(c, a) => (Val(LSub(a, c)) = Val(a) - Val(c) /\ IsLimb(LSub(a, c)))
Product == (q >= 0 /\ q <= 256) => (Val(LMul(a, q)) = Val(a) * q /\ Low(LMul(a, q)))
\* nothing on the way leaves 32 bits
Small == (q >= 0 /\ q <= 256) => (a[3] * q < 2147483648 /\ a[1] * q + a[2] * q < 2147483648)
\* c is the Euclidean remainder of the signed index neg, a by n
Remainder == EuclidOf(neg, a, n, q, c) =>
  (LET i == IF neg = 0 THEN Val(a) ELSE 0 - Val(a)
   IN i = Val(n) * q + Val(c) /\ Val(c) >= 0 /\ Val(c) < Val(n))
Inv == Order /\ Sum /\ Difference /\ Product /\ Small /\ Remainder
\* wrong: a carry forgotten
\* @type: () => <<Int, Int, Int>>;
LAddBad == <<a[1] + c[1], (a[2] + c[2] + ((a[3] + c[3]) \div B)) % B, (a[3] + c[3]) % B>>
Wrong == Val(LAddBad) = Val(a) + Val(c)
=============================================================================
