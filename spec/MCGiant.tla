------------------------------- MODULE MCGiant ------------------------------
(* The limb arithmetic and the slice laws of Giant against plain integers:  *)
(* the same operations on Mem's integers, translated, for every length and   *)
(* index around a few anchors.  Carry is exercised by anchors at the limb    *)
(* boundaries, where both sides still fit an integer.                       *)
EXTENDS Giant
CONSTANT Lens
VARIABLES n, i
mv == <<giant, n, i>>
L(k) == <<0, k \div B, k % B>>
S4(k) == IF k < 0 THEN <<1>> \o L(0 - k) ELSE <<0>> \o L(k)
Anchors == {0, B, 3 * B, 16777216, 65536, 268435456}
Near3 == { a + d : a \in Anchors, d \in -2..2 }
MCInit == GiantInit /\ n \in Lens /\ i \in Near3
MCNext == /\ UNCHANGED n
          /\ \/ giant.n = Zero /\ GLoad(L(n)) /\ UNCHANGED i
             \/ giant.n # Zero /\ V(0) = GNull /\ GMake(0, Zero, L(n)) /\ UNCHANGED i
             \/ giant.n # Zero /\ i >= 0 /\ DOMAIN giant.m = {} /\ GSet(0, L(i), 7, Ok(0)) /\ UNCHANGED i
             \/ giant.n # Zero /\ i >= 0 /\ \E k \in {0, 1, 3, n} : GSub(1, 0, L(i), L(k), Ok(0)) /\ UNCHANGED i
MCSpec == MCInit /\ [][MCNext]_mv
Arith == \A j \in Near3 : (j >= 0 /\ i >= 0) =>
  /\ LLt(L(i), L(j)) = (i < j) /\ LLe(L(i), L(j)) = (i <= j)
  /\ LAdd(L(i), L(j)) = L(i + j)
  /\ (j <= i => LSub(L(i), L(j)) = L(i - j))
  /\ (i < 4000000 => LMul(L(i), 256) = L(i * 256)) /\ LMul(L(i), 3) = L(i * 3)
\* the witness is unique and is the Euclidean quotient
Witness == (Abs(i \div n) <= 256) =>
  /\ Euclid(S4(i), L(n), i \div n, L(i % n))
  /\ \A d \in {-1, 1} : ~Euclid(S4(i), L(n), (i \div n) + d, L(i % n))
  /\ \A d \in {-1, 1} : ((i % n) + d >= 0) => ~Euclid(S4(i), L(n), i \div n, L((i % n) + d))
Contains == GContained
\* the outcome of every checked access is unique and is that of the integers
Outcome == (giant.n # Zero /\ V(0).n = L(n) /\ i >= 0) =>
  /\ \A r \in {Ok(0), Ok(7), Err("Index")} : (ENABLED GGet(0, L(i), r)) = (r = IF i < n THEN Ok(GCell(V(0), L(i))) ELSE Err("Index"))
  /\ GSubAllowed(V(0), L(i), L(3)) = (IF i >= n THEN {"Index"} ELSE IF 3 > n - i THEN {"Length"} ELSE IF 3 < n - i THEN {"ok"} ELSE {"ok", "Length"})
\* a write is seen at its index only
OneCell == (DOMAIN giant.m # {}) => \A j \in Near3 : (j >= 0 /\ j < n) => GCell(V(0), L(j)) = (IF j = i THEN 7 ELSE 0)
\* a child sees the parent's cells
Child == (DOMAIN giant.m # {} /\ V(1) # GNull) => (V(1).b = L(i)) /\ (V(1).n # Zero => GCell(V(1), Zero) = 7)
=============================================================================
