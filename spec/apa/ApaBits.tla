------------------------------- MODULE ApaBits ------------------------------
(* Unbounded companion of MCBits: quantising towards zero, for every input of *)
(* the full scale 2^31 and every depth up to 30: never above, less than a      *)
(* step below, unchanged when repeated, and monotone.                        *)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  x,
  \* @type: Int;
  y
Init == x \in 0..2147483648 /\ y \in 0..2147483648
Next == UNCHANGED <<x, y>>
\* @type: (Int, Int) => Int;
Q(v, p) == (v \div p) * p
\* @type: Int => Bool;
Laws(p) == /\ Q(x, p) <= x /\ x - Q(x, p) < p
           /\ Q(Q(x, p), p) = Q(x, p)
           /\ (x <= y => Q(x, p) <= Q(y, p))
Inv ==
  /\ Laws(1)
  /\ Laws(2)
  /\ Laws(4)
  /\ Laws(8)
  /\ Laws(16)
  /\ Laws(32)
  /\ Laws(64)
  /\ Laws(128)
  /\ Laws(256)
  /\ Laws(512)
  /\ Laws(1024)
  /\ Laws(2048)
  /\ Laws(4096)
  /\ Laws(8192)
  /\ Laws(16384)
  /\ Laws(32768)
  /\ Laws(65536)
  /\ Laws(131072)
  /\ Laws(262144)
  /\ Laws(524288)
  /\ Laws(1048576)
  /\ Laws(2097152)
  /\ Laws(4194304)
  /\ Laws(8388608)
  /\ Laws(16777216)
  /\ Laws(33554432)
  /\ Laws(67108864)
  /\ Laws(134217728)
  /\ Laws(268435456)
  /\ Laws(536870912)
  /\ Laws(1073741824)
\* a coarser reduction after a finer one is the coarser one
Chain ==
  /\ Q(Q(x, 1), 2) = Q(x, 2)
  /\ Q(Q(x, 8), 16) = Q(x, 16)
  /\ Q(Q(x, 64), 128) = Q(x, 128)
  /\ Q(Q(x, 512), 1024) = Q(x, 1024)
  /\ Q(Q(x, 4096), 8192) = Q(x, 8192)
  /\ Q(Q(x, 32768), 65536) = Q(x, 65536)
  /\ Q(Q(x, 262144), 524288) = Q(x, 524288)
  /\ Q(Q(x, 2097152), 4194304) = Q(x, 4194304)
  /\ Q(Q(x, 16777216), 33554432) = Q(x, 33554432)
  /\ Q(Q(x, 134217728), 268435456) = Q(x, 268435456)
\* wrong: rounding to nearest exceeds the input
Wrong == ((x + 8) \div 16) * 16 <= x
=============================================================================
