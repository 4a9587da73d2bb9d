------------------------------- MODULE GenMem -------------------------------
(* Prints one operation script per transition of MCMem's state graph: the   *)
(* shortest path to the state (the VIEW hides the script), the operation,   *)
(* and an observation of the complete state.  The harness replays them into *)
(* the code and TraceMem judges the result.                                 *)
EXTENDS MCMem
CONSTANT Emitted   \* which operations to print
VARIABLE path
gvars == <<mem, sl, op, path>>
S(i) == IF i = Huge THEN "18446744073709551615" ELSE ToString(i)
Ap(t) == path' = path \o ";" \o t
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN "" ELSE " 0" \o Zeros(n - 1)
GenInit == MCInit /\ path = "init b " \o ToString(N) \o Zeros(N) \o ";nullm 0;nullm 1"
GenNext == \E x \in Handles :
  \/ \E b \in 0..N : \E n \in 0..(N - b) : Make(x, b, n) /\ T("make", x, Ok(0)) /\ Ap("rw " \o S(x) \o " " \o S(b) \o " " \o S(n))
  \/ \E b \in 0..N : \E n \in 0..(N - b) : \E z \in {"chg ", "chgm "} :
       Make(x, b, n) /\ T("make", x, Ok(0)) /\ Ap(z \o S(x) \o " " \o S(b) \o " " \o S(n))
  \/ MakeNull(x) /\ T("null", x, Ok(0)) /\ Ap("nullm " \o S(x))
  \/ \E z \in {"chgz ", "chgmz "} : MakeNull(x) /\ T("null", x, Ok(0)) /\ Ap(z \o S(x))
  \/ \E y \in Handles : Copy(x, y) /\ T("copy", y, Ok(0)) /\ Ap("cp " \o S(x) \o " " \o S(y))
  \/ \E i \in Idx \cup {Huge} : Get(x, i, GetRes(sl[x], i)) /\ T("get", x, GetRes(sl[x], i)) /\ Ap("get " \o S(x) \o " " \o S(i))
  \/ \E i \in Idx \cup {Huge}, v \in Vals : Set(x, i, v, SetRes(sl[x], i)) /\ T("set", x, SetRes(sl[x], i))
       /\ Ap("set " \o S(x) \o " " \o S(i) \o " " \o S(v))
  \/ \E d \in Handles, off \in Idx \cup {Huge}, n \in Idx \cup {Huge} :
       \* where the specification leaves a choice, follow the refusal
       \E r \in {q \in SubRes(sl[x], off, n) : q.k = "err" \/ SubRes(sl[x], off, n) = {q}} :
         Sub(d, x, off, n, r) /\ T("sub", x, r) /\ Ap("sub " \o S(d) \o " " \o S(x) \o " " \o S(off) \o " " \o S(n))
GenSpec == GenInit /\ [][GenNext]_gvars
View1 == <<mem, sl>>
Observe == ";len 0;raw 0;len 1;raw 1;snap"
Emit == op'.o \in Emitted => PrintT("OPS " \o path' \o Observe)
=============================================================================
