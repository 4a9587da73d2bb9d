-------------------------------- MODULE Limb --------------------------------
(* Sizes of up to 66 bits as <<l2, l1, l0>> in base 2^22, so that TLC's 32-bit *)
(* integers suffice.  ApaLimb proves these operators for all limbs.          *)
EXTENDS Integers

B == 4194304
\* @type: <<Int, Int, Int>>;
Zero == <<0, 0, 0>>
\* @type: (<<Int, Int, Int>>, <<Int, Int, Int>>) => Bool;
LLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
\* @type: (<<Int, Int, Int>>, <<Int, Int, Int>>) => Bool;
LLe(a, b) == a = b \/ LLt(a, b)
\* @type: (<<Int, Int, Int>>, <<Int, Int, Int>>) => <<Int, Int, Int>>;
LAdd(a, b) == LET x == a[3] + b[3]
                  y == a[2] + b[2] + (x \div B)
              IN <<a[1] + b[1] + (y \div B), y % B, x % B>>
\* a - b for b <= a
\* @type: (<<Int, Int, Int>>, <<Int, Int, Int>>) => <<Int, Int, Int>>;
LSub(a, b) == LET x == a[3] - b[3]
                  y == a[2] - b[2] + (x \div B)      \* floors: a borrow is -1
              IN <<a[1] - b[1] + (y \div B), y % B, x % B>>
\* q at most 256
\* @type: (<<Int, Int, Int>>, Int) => <<Int, Int, Int>>;
LMul(a, q) == LET x == a[3] * q
                  y == (a[2] * q) + (x \div B)
              IN <<(a[1] * q) + (y \div B), y % B, x % B>>
\* @type: (<<Int, Int, Int>>, Int) => <<Int, Int, Int>>;
LInc(a, k) == LAdd(a, <<0, 0, k>>)
\* the Euclidean remainder, given a witness q: neg and m are the sign and
\* magnitude of the index
\* @type: (Int, <<Int, Int, Int>>, <<Int, Int, Int>>, Int, <<Int, Int, Int>>) => Bool;
EuclidOf(neg, m, n, q, r) ==
  /\ q <= 256 /\ q >= -256 /\ LLt(r, n)
  /\ IF neg = 0 THEN q >= 0 /\ m = LAdd(LMul(n, q), r)
                ELSE q < 0 /\ LMul(n, 0 - q) = LAdd(m, r)
=============================================================================
