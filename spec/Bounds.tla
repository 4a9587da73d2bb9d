------------------------------- MODULE Bounds -------------------------------
(* Calls with hostile arguments (C40): any index, length or window, any     *)
(* position, phase, sample or setting that is infinite, NaN or as large as  *)
(* a float can be.  One memory, one slice and table over b..b+n-1, and one  *)
(* device ("dl", "comb" or "ap") over the same cells.  Whatever a call is   *)
(* given, it changes what it is documented to change and nothing else.      *)
(* Cells hold 32-bit patterns.                                              *)
EXTENDS Base, Limb
VARIABLES mem, b, n, pos, kind
bvars == <<mem, b, n, pos, kind>>
Same == UNCHANGED bvars
BoundsInit == mem = <<>> /\ b = 0 /\ n = 0 /\ pos = 0 /\ kind = "none"
Load(m) == mem' = m /\ UNCHANGED <<b, n, pos, kind>>
Make(k, c, m) == /\ c >= 0 /\ m > 0 /\ c + m <= Len(mem)
                 /\ b' = c /\ n' = m /\ pos' = 0 /\ kind' = k /\ UNCHANGED mem
Here(i) == mem[b + 1 + (i % n)]

\* reads at float positions (p: the pattern, w: the window, 2 where there is
\* none): any value or an error; a panic only where the position is NaN,
\* infinite or 2^54 and more, beyond the points given (c = "lag"), or where the
\* window holds no pair of samples
Far(p) == (p \div 8388608) % 256 >= 181
Hostile(k, c, p, w) ==
  /\ n > 0 /\ k \in {"ok", "err", "panic"}
  /\ (k = "panic" => Far(p) \/ c = "lag" \/ w < 2)
  /\ Same

\* integer arguments have exact answers, however large; indices from 2^30 on
\* are given as 2^30
GetRes(i) == IF i >= n THEN Err("Index") ELSE Ok(Here(i))
Get(i, r) == r = GetRes(i) /\ Same
Set(i, v, r) == /\ r = (IF i >= n THEN Err("Index") ELSE Ok(0))
                /\ mem' = (IF i < n THEN [mem EXCEPT ![b + i + 1] = v] ELSE mem)
                /\ UNCHANGED <<b, n, pos, kind>>
\* r: result; sb, sn: what the child denotes
Sub(off, m, r, sb, sn) ==
  /\ IF off >= n THEN r = Err("Index")
     ELSE IF m > n - off THEN r = Err("Length")
     ELSE IF m < n - off THEN r = Ok(0) ELSE r \in {Ok(0), Err("Length")}
  /\ (r.k = "ok" => sb = b + off /\ sn = m)
  /\ Same
Wrapped(ix, v) == n > 0 /\ v = Here(LimbMod(ix, n)) /\ Same
Four(ix, vs) == /\ n > 0 /\ vs = [j \in 1..4 |-> Here(LimbMod(ix, n) + j - 1)] /\ Same
Tap(ix, v) == kind = "dl" /\ v = Here(pos + LimbMod(ix, n)) /\ Same

Next1(p) == (p + 1) % n
Read(v) == kind = "dl" /\ v = Here(pos) /\ Same
Write(v) == /\ kind = "dl" /\ mem' = [mem EXCEPT ![b + pos + 1] = v]
            /\ pos' = Next1(pos) /\ UNCHANGED <<b, n, kind>>
Advance == kind = "dl" /\ pos' = Next1(pos) /\ UNCHANGED <<mem, b, n, kind>>
\* a tick of a filter: one cell, and the position moves on
Tick(m) == /\ kind \in {"comb", "ap"} /\ Len(m) = Len(mem)
           /\ \A i \in 1..Len(mem) : i # b + pos + 1 => m[i] = mem[i]
           /\ mem' = m /\ pos' = Next1(pos) /\ UNCHANGED <<b, n, kind>>
Setting == kind = "comb" /\ Same
Swap(c, m) == /\ c >= 0 /\ m > 0 /\ c + m <= Len(mem) /\ kind # "none"
              /\ b' = c /\ n' = m /\ pos' = (IF pos < m THEN pos ELSE 0) /\ UNCHANGED <<mem, kind>>
Snapshot(m, g) == m = mem /\ g = 1 /\ Same
=============================================================================
