------------------------------ MODULE ApaSlice ------------------------------
(* Unbounded companion of MCMem, for Apalache: memory of any size, views of  *)
(* any begin and length, any offset, length and index.  IndInv is inductive, *)
(* so no history of any length leaves the memory or the view used.           *)
EXTENDS Integers

CONSTANT
  \* @type: Int;
  N
VARIABLES
  \* @type: Int -> Int;
  b,
  \* @type: Int -> Int;
  n,
  \* @type: Int;
  at,      \* cell touched by the last access, -1 if none
  \* @type: Int;
  by,      \* the view it was made through
  \* @type: Bool;
  inside   \* the last sub-slice granted lies in its parent

Handles == {0, 1, 2}
CInit == N \in Nat
Init == /\ b = [x \in Handles |-> 0] /\ n = [x \in Handles |-> 0]
        /\ at = -1 /\ by = 0 /\ inside = TRUE
Make(x) == \E o \in Nat, l \in Nat :
  /\ o + l <= N
  /\ b' = [b EXCEPT ![x] = o] /\ n' = [n EXCEPT ![x] = l]
  /\ at' = -1 /\ UNCHANGED <<by, inside>>
MakeNull(x) == /\ b' = [b EXCEPT ![x] = 0] /\ n' = [n EXCEPT ![x] = 0] /\ at' = -1 /\ UNCHANGED <<by, inside>>
Copy(d, x) == /\ b' = [b EXCEPT ![d] = b[x]] /\ n' = [n EXCEPT ![d] = n[x]] /\ at' = -1 /\ UNCHANGED <<by, inside>>
\* checked access at any index: granted below the length
Access(x) == \E i \in Nat :
  /\ at' = (IF i < n[x] THEN b[x] + i ELSE -1) /\ by' = x
  /\ UNCHANGED <<b, n, inside>>
\* wrapped access: any integer i = q n + r with 0 <= r < n; whatever q is, r decides
Wrapped(x) == \E r \in Nat :
  /\ n[x] > 0 /\ r < n[x]
  /\ at' = b[x] + r /\ by' = x
  /\ UNCHANGED <<b, n, inside>>
\* the granted range ends before (or, allowed too, at) the parent's end
Sub(d, x) == \E o \in Nat, l \in Nat :
  /\ o < n[x] /\ l <= n[x] - o
  /\ b' = [b EXCEPT ![d] = b[x] + o] /\ n' = [n EXCEPT ![d] = l]
  /\ inside' = (b[x] + o >= b[x] /\ b[x] + o + l <= b[x] + n[x])
  /\ at' = -1 /\ UNCHANGED by
Next == \E x \in Handles :
  \/ Make(x) \/ MakeNull(x) \/ Access(x) \/ Wrapped(x)
  \/ \E d \in Handles : Copy(d, x) \/ Sub(d, x)

Contained == \A x \in Handles : b[x] >= 0 /\ n[x] >= 0 /\ b[x] + n[x] <= N
Touched == at = -1 \/ (at >= b[by] /\ at < b[by] + n[by] /\ at < N)
IndInv == Contained /\ Touched /\ inside /\ by \in Handles
\* any state that satisfies the invariant
IndInit == /\ b \in [Handles -> Int] /\ n \in [Handles -> Int]
           /\ at \in Int /\ by \in Handles /\ inside \in BOOLEAN
           /\ IndInv
\* a wrong design, to be refuted: the end computed as if the sum could wrap
SubLoose(d, x) == \E o \in Nat, l \in Nat :
  /\ o < n[x] /\ l <= n[x]
  /\ b' = [b EXCEPT ![d] = b[x] + o] /\ n' = [n EXCEPT ![d] = l]
  /\ inside' = (b[x] + o + l <= b[x] + n[x])
  /\ at' = -1 /\ UNCHANGED by
NextLoose == Next \/ \E x \in Handles, d \in Handles : SubLoose(d, x)
=============================================================================
