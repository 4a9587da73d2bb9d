------------------------------ MODULE ApaArith ------------------------------
(* Arith's scaled product: for all operands below 2^30 and every shift from   *)
(* 15 to 45 it is at most 3 below the exact floor, never above, and no         *)
(* intermediate value exceeds 32 bits when the result does not.              *)
EXTENDS Integers, Arith
VARIABLES
  \* @type: Int;
  a,
  \* @type: Int;
  b
Init == a \in 0..1073741823 /\ b \in 0..1073741823
Next == UNCHANGED <<a, b>>
D(exact, got) == exact >= got /\ exact <= got + 3
Parts == /\ (a \div 32768) * (b \div 32768) < 2147483648
         /\ (a \div 32768) * (b % 32768) < 1073741824
         /\ (a % 32768) * (b % 32768) < 1073741824
Inv ==
  /\ Parts
  /\ D((a * b) \div 32768, MulShr(a, b, 15))
  /\ D((a * b) \div 65536, MulShr(a, b, 16))
  /\ D((a * b) \div 131072, MulShr(a, b, 17))
  /\ D((a * b) \div 262144, MulShr(a, b, 18))
  /\ D((a * b) \div 524288, MulShr(a, b, 19))
  /\ D((a * b) \div 1048576, MulShr(a, b, 20))
  /\ D((a * b) \div 2097152, MulShr(a, b, 21))
  /\ D((a * b) \div 4194304, MulShr(a, b, 22))
  /\ D((a * b) \div 8388608, MulShr(a, b, 23))
  /\ D((a * b) \div 16777216, MulShr(a, b, 24))
  /\ D((a * b) \div 33554432, MulShr(a, b, 25))
  /\ D((a * b) \div 67108864, MulShr(a, b, 26))
  /\ D((a * b) \div 134217728, MulShr(a, b, 27))
  /\ D((a * b) \div 268435456, MulShr(a, b, 28))
  /\ D((a * b) \div 536870912, MulShr(a, b, 29))
  /\ D((a * b) \div 1073741824, MulShr(a, b, 30))
  /\ D((a * b) \div 2147483648, MulShr(a, b, 31))
  /\ D((a * b) \div 4294967296, MulShr(a, b, 32))
  /\ D((a * b) \div 8589934592, MulShr(a, b, 33))
  /\ D((a * b) \div 17179869184, MulShr(a, b, 34))
  /\ D((a * b) \div 34359738368, MulShr(a, b, 35))
  /\ D((a * b) \div 68719476736, MulShr(a, b, 36))
  /\ D((a * b) \div 137438953472, MulShr(a, b, 37))
  /\ D((a * b) \div 274877906944, MulShr(a, b, 38))
  /\ D((a * b) \div 549755813888, MulShr(a, b, 39))
  /\ D((a * b) \div 1099511627776, MulShr(a, b, 40))
  /\ D((a * b) \div 2199023255552, MulShr(a, b, 41))
  /\ D((a * b) \div 4398046511104, MulShr(a, b, 42))
  /\ D((a * b) \div 8796093022208, MulShr(a, b, 43))
  /\ D((a * b) \div 17592186044416, MulShr(a, b, 44))
  /\ D((a * b) \div 35184372088832, MulShr(a, b, 45))
\* wrong: the middle products left out
Wrong == D((a * b) \div 16777216, (((a \div 32768) * (b \div 32768)) * 64))
=============================================================================
