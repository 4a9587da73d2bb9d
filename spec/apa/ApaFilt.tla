------------------------------ MODULE ApaFilt -------------------------------
(* Unbounded companion of MCFilt: a comb filter stays bounded for every       *)
(* length of memory, every history and every feedback below one.  Values are  *)
(* magnitudes; feedback is F/U, inputs are at most X, and Bd is any bound with *)
(* F Bd + U X <= U Bd (that is Bd >= X / (1 - feedback)).  m is the largest    *)
(* magnitude in memory, s that of the damping state.                         *)
EXTENDS Integers
CONSTANT
  \* @type: Int;
  F,
  \* @type: Int;
  U,
  \* @type: Int;
  X,
  \* @type: Int;
  Bd
VARIABLES
  \* @type: Int;
  m,
  \* @type: Int;
  s
CInit == /\ F \in Nat /\ U \in Nat /\ X \in Nat /\ Bd \in Nat
         /\ U > 0 /\ F < U /\ F * Bd + U * X <= U * Bd
Init == m = 0 /\ s = 0
\* out <= m; the state moves between its old value and out (damping in [0,1]);
\* the cell gets input plus feedback times the state
Tick == \E out \in Nat, x \in Nat, cell \in Nat :
  /\ out <= m /\ x <= X
  /\ s' \in Nat /\ (s' <= s \/ s' <= out)
  /\ U * cell <= U * x + F * s'
  /\ m' \in Nat /\ (m' <= m \/ m' <= cell)
Next == Tick
IndInv == m >= 0 /\ s >= 0 /\ m <= Bd /\ s <= Bd
IndInit == m \in Int /\ s \in Int /\ IndInv
\* wrong: feedback of one or more
CInitLoud == /\ F \in Nat /\ U \in Nat /\ X \in Nat /\ Bd \in Nat /\ U > 0 /\ F >= U /\ X > 0 /\ Bd >= X
=============================================================================
