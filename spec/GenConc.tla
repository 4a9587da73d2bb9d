------------------------------- MODULE GenConc ------------------------------
(* Schedules: a program of two or three accesses of one thread, and the     *)
(* points inside it - phase p (0 before the first access begins, odd inside *)
(* an access, even between two), j machine instructions into the phase - at *)
(* which another thread runs a burst of accesses.  Mode 64: both threads    *)
(* write every cell.                                                        *)
EXTENDS Conc
CONSTANTS Mode, As, Bs, Cs, Ds, Vs, Ps, Js, Points, Bursts
VARIABLES prog, pts, path
gv == <<begun, done, seen, act, prog, pts, path>>
\* accesses: 0 get, 1 get_unchecked, 2 get_wrapped inside, 3 outside,
\* 4 four wrapped, 5 assign, 6 assign_unchecked;  9 as second: repeat the first
\* d: 0 same cell twice, 1 the next cell, 2 same cell and the compiler knows the length
S(n) == ToString(n)
\* every other program writes odd values (infinities, NaN, -0, ...): which
Style(a, b, c, d, v) == LET z == (7 * a) + (3 * b) + c + (5 * d) + (2 * v) IN IF (z % 2) = 0 THEN 0 ELSE 1 + (z % 24)
GenInit == ConcInit /\ prog = <<>> /\ pts = <<>> /\ path = ""
Choose2 ==
  /\ prog = <<>>
  /\ \E a \in As, b \in Bs, c \in Cs, d \in Ds, v \in Vs :
       /\ (b = 9 => c = 7 /\ d # 1) /\ (c # 7 => d = 0)
       /\ prog' = <<a, b, c, d>>
       /\ path' = "prog " \o S(Mode + v + 2 * Style(a, b, c, d, v)) \o " " \o S(a) \o " " \o S(b) \o " " \o S(c) \o " " \o S(d) \o " " \o S((a + b) % 4)
  /\ pts' = pts
AddPoint ==
  /\ prog # <<>> /\ Len(pts) < Points
  /\ \E p \in Ps, j \in Js, u \in Bursts :
       /\ (pts # <<>> => p > pts[Len(pts)][1] \/ (p = pts[Len(pts)][1] /\ j > pts[Len(pts)][2]))
       /\ pts' = Append(pts, <<p, j>>)
       /\ path' = path \o ";at " \o S(p) \o " " \o S(j) \o " " \o S(u)
  /\ prog' = prog
GenNext == (Choose2 \/ AddPoint) /\ UNCHANGED cvars
GenSpec == GenInit /\ [][GenNext]_gv
Emit == Len(pts') = Points => PrintT("OPS " \o path' \o ";go")
=============================================================================
