-------------------------------- MODULE Space -------------------------------
(* Memory per call (C39): no call takes a block from a heap; the stack a    *)
(* call needs is that of calls of the same operation on the smallest data   *)
(* with the plainest arguments and no history, up to a small constant, and  *)
(* never more than Most; objects are a few words and own no sample memory.  *)
EXTENDS Base, TLC
CONSTANTS Factor, Slack, Most, Words
VARIABLES base   \* operation -> deepest stack of its plain calls
SpaceInit == base = <<>>
Plain(w, st, al) == /\ w \notin DOMAIN base /\ al = 0 /\ st >= 0 /\ st <= Most
                    /\ base' = (w :> st) @@ base
Room(w, st, al) == /\ w \in DOMAIN base /\ al = 0 /\ st >= 0
                   /\ st <= Min2((Factor * base[w]) + Slack, Most)
                   /\ UNCHANGED base
Object(b) == b > 0 /\ b <= 8 * Words /\ UNCHANGED base
=============================================================================
