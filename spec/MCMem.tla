------------------------------- MODULE MCMem -------------------------------
(* Exhaustive check of the slice design: N cells, two handles, every        *)
(* operation with every argument around the boundaries.                     *)
EXTENDS Mem
CONSTANTS N, Vals
VARIABLE op      \* what the last step did (for the action properties)
mcvars == <<mem, sl, op>>

Idx == 0..(N + 1)
Huge == 1073741824
MCInit == /\ mem = [i \in 1..N |-> 0] /\ sl = [x \in Handles |-> Null]
          /\ op = [o |-> "init", h |-> CHOOSE x \in Handles : TRUE, r |-> Ok(0)]
T(o, x, r) == op' = [o |-> o, h |-> x, r |-> r]
MCNext == \E x \in Handles :
  \/ \E b \in 0..N : \E n \in 0..(N - b) : Make(x, b, n) /\ T("make", x, Ok(0))
  \/ MakeNull(x) /\ T("null", x, Ok(0))
  \/ \E y \in Handles : Copy(x, y) /\ T("copy", y, Ok(0))
  \/ \E i \in Idx \cup {Huge} : Get(x, i, GetRes(sl[x], i)) /\ T("get", x, GetRes(sl[x], i))
  \/ \E i \in Idx \cup {Huge}, v \in Vals : Set(x, i, v, SetRes(sl[x], i)) /\ T("set", x, SetRes(sl[x], i))
  \/ \E d \in Handles, off \in Idx \cup {Huge}, n \in Idx \cup {Huge} :
       \E r \in SubRes(sl[x], off, n) : Sub(d, x, off, n, r) /\ T("sub", x, r)
MCSpec == MCInit /\ [][MCNext]_mcvars

\* a granted sub-slice lies inside its parent
SubInside == [][op'.o = "sub" /\ op'.r.k = "ok" =>
   \E d \in Handles : sl' = [sl EXCEPT ![d] = sl'[d]] /\ Cells(sl'[d]) \subseteq Cells(sl[op'.h])]_mcvars
\* a write changes at most one cell and that cell belongs to the slice used
OneCell == [][mem' # mem => /\ op'.o = "set" /\ op'.r.k = "ok"
   /\ \E c \in Cells(sl[op'.h]) : \A i \in 0..(N - 1) : i # c => mem'[i + 1] = mem[i + 1]]_mcvars
\* errors change nothing
ErrNothing == [][op'.r.k = "err" => mem' = mem /\ sl' = sl]_mcvars
\* a read-back returns what the slice denotes
NullErrs == \A x \in Handles, i \in Idx : sl[x].null => GetRes(sl[x], i) = Err("Index")
\* Euclidean wrap-around agrees with the limb encoding used by the traces
LimbOf(i) == <<IF i < 0 THEN 1 ELSE 0, 0, 0, Abs(i)>>
WrapAgree == \A x \in Handles : sl[x].n > 0 =>
   \A i \in (0 - 3 * N)..(3 * N) : LimbMod(LimbOf(i), sl[x].n) = i % sl[x].n
============================================================================
