------------------------------ MODULE MCBounds ------------------------------
(* Which cells each call touches, on a machine of W-bit words whose         *)
(* arithmetic wraps around (Checks = FALSE) or stops the call (TRUE).       *)
(* Positions are quarters, NaN or infinite; a conversion to an integer      *)
(* saturates, and NaN becomes 0.  Every call, with every argument, in every *)
(* state of a line: the touched cells lie inside the slice.                 *)
(* Designs: "code" is the library's; wrong ones: "direct" adds 3 to the     *)
(* index as it stands, "ends" tests offset + length, "until" tests only     *)
(* that a position is not beyond the last sample, "open" reads a table's    *)
(* neighbour unwrapped, "keep" keeps the position over a buffer change,     *)
(* "sum" wraps the sum of position and offset instead of its terms.         *)
EXTENDS Base, TLC
CONSTANTS W, MaxN, Design, Checks
VARIABLES n, pos, touch, right
mv == <<n, pos, touch, right>>
M == Pow2(W)
MaxI == Pow2(W - 1) - 1
MinI == -Pow2(W - 1)
WrapI(x) == ((x + Pow2(W - 1)) % M) - Pow2(W - 1)
WrapU(x) == x % M
Ints == MinI..MaxI
Uints == 0..(M - 1)
Over(x) == x > MaxI \/ x < MinI
Stop == 1000000
\* the truncated remainder of the machine
Rem(x, y) == IF x >= 0 THEN x % y ELSE -((-x) % y)
\* a set of addresses, relative to the slice; Stop if a sum stops the call
Add(x, y) == IF x = Stop \/ (Over(x + y) /\ Checks) THEN Stop ELSE WrapI(x + y)
Mod(x) == IF x = Stop THEN Stop ELSE x % n
Raw(x) == x                                 \* an unchecked access, signed
Sat(x) == Clamp(x, MinI, MaxI)
\* positions: <<"nan", 0>>, <<"inf", s>>, <<"fin", quarters>>; far beyond words
Positions == {<<"nan", 0>>, <<"inf", 1>>, <<"inf", -1>>}
             \cup {<<"fin", q>> : q \in (-6 * M)..(6 * M)}
Trunc(p) == CASE p[1] = "nan" -> 0
              [] p[1] = "inf" -> (IF p[2] > 0 THEN MaxI ELSE MinI)
              [] OTHER -> Sat(IF p[2] >= 0 THEN p[2] \div 4 ELSE -((-p[2]) \div 4))
Above(i, p) == (p[1] = "inf" /\ p[2] < 0) \/ (p[1] = "fin" /\ 4 * i > p[2])   \* i > p
Floor(p) == LET i == Trunc(p) IN IF Above(i, p) THEN Add(i, -1) ELSE i

WrappedC(i) == {Mod(i)}
FourC(i) == LET j == IF Design = "direct" THEN i ELSE Rem(i, n)
                s == Add(j, 3)
            IN IF s = Stop THEN {Stop}
               ELSE IF s >= n \/ j < 0 THEN {Mod(Add(j, k)) : k \in 0..3}
               ELSE {Raw(WrapI(j + k)) : k \in 0..3}
PlusOne(i) == IF i = Stop THEN Stop ELSE Add(i, 1)
LerpW(p) == {Mod(Floor(p)), Mod(PlusOne(Floor(p)))}
Table(p) == IF Design = "open" THEN {Raw(Trunc(p)), Raw(Trunc(p) + 1)} ELSE LerpW(p)
\* the checked read
Checked(p) ==
  LET i == Trunc(p)
      neg == (p[1] = "inf" /\ p[2] < 0) \/ (p[1] = "fin" /\ p[2] < 0)
      beyond == (p[1] = "inf" /\ p[2] > 0) \/ (p[1] = "fin" /\ p[2] > 4 * (n - 1))
  IN IF Design = "until" THEN (IF neg \/ beyond THEN {} ELSE {Raw(i), Raw(i + 1)})
     ELSE IF neg \/ i >= n THEN {}
     ELSE IF p = <<"fin", 4 * i>> \/ i + 1 >= n THEN {i} ELSE {i, i + 1}
Window(p, w) == {Mod(IF Floor(p) = Stop THEN Stop ELSE Add(Floor(p), k)) : k \in (-((w - 1) \div 2))..(w \div 2)}
\* the exact cell of a tap, for comparison
TapC(o) == IF Design = "sum" THEN {Mod(Add(pos, o))} ELSE {Mod(Add(pos, Rem(o, n)))}
SubC(off, m) ==
  IF Design = "ends" THEN (IF WrapU(off + m) > n THEN {} ELSE {Raw(off + k) : k \in {0, Max2(m - 1, 0)}})
  ELSE IF off >= n \/ m >= n - off THEN {}
  ELSE {off + k : k \in {0, Max2(m - 1, 0)}}

MInit == n \in 1..MaxN /\ pos = 0 /\ touch = {} /\ right = TRUE
Call(t) == touch' = t \ {Stop} /\ UNCHANGED <<n, pos>>
Clear == touch # {} /\ touch' = {} /\ right' = TRUE /\ UNCHANGED <<n, pos>>
Calls ==
  \/ \E i \in Ints : (Call(WrappedC(i)) \/ Call(FourC(i))) /\ right' = TRUE
  \/ \E p \in Positions : (Call(LerpW(p)) \/ Call(Table(p)) \/ Call(Checked(p)) \/ \E w \in 1..5 : Call(Window(p, w)))
                          /\ right' = TRUE
  \/ \E o \in Ints : Call(TapC(o)) /\ right' = (TapC(o) = {(pos + o) % n})
  \/ \E off, m \in Uints : Call(SubC(off, m)) /\ right' = TRUE
  \/ touch' = {pos} /\ pos' = (IF pos = n - 1 THEN 0 ELSE pos + 1) /\ n' = n /\ right' = TRUE
  \/ \E m \in 1..MaxN : /\ n' = m /\ pos' = (IF Design = "keep" \/ pos < m THEN pos ELSE 0)
                        /\ touch' = {} /\ right' = TRUE
MNext == Clear \/ (touch = {} /\ Calls)
MSpec == MInit /\ [][MNext]_mv
Inside == \A a \in touch : a >= 0 /\ a < n
TapRight == right
Small == MaxN <= MaxI \div 4               \* a slice of words fits the address space
ASSUME Small
=============================================================================
