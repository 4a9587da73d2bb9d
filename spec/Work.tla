-------------------------------- MODULE Work --------------------------------
(* Work per call (C36): a call of an operation executes at most a few times *)
(* as many machine instructions as calls of the same operation on the       *)
(* smallest data with the plainest arguments and no history, whatever the   *)
(* sizes, the arguments and the history.                                    *)
EXTENDS Base, TLC
CONSTANTS Factor, Slack
VARIABLES base   \* operation -> largest number of instructions of its plain calls
WorkInit == base = <<>>
Ref(w, c) == /\ w \notin DOMAIN base /\ c >= 0
             /\ base' = (w :> c) @@ base
Call(w, c) == /\ w \in DOMAIN base
              /\ c <= (Factor * base[w]) + Slack
              /\ UNCHANGED base
=============================================================================
