------------------------------ MODULE Helpers -------------------------------
(* Phase, delay, smoothing and interpolation (hftools.math).                 *)
(* A complex sample is [d, k]: magnitude 10^(d/20) and phase k, in units of  *)
(* a quarter degree; products, roots, dB and angles are then integer sums.   *)
(* Arrays are row major with a shape; "along" an axis is a set of lines of   *)
(* flat indices.                                                             *)
EXTENDS HFBase
Turn == 1440
Half == Turn \div 2
(* "close", used to line up the starts of several sequences: 2 rad *)
Close == 458

(* --- angles ------------------------------------------------------------------ *)
SameDir(a, b) == (a - b) % Turn = 0
(* a is in the branch that starts at b; on the cut itself both ends are accepted *)
InBranch(a, b) == b <= a /\ a <= b + Turn
Principal(k) == LET r == k % Turn IN IF r > Half THEN r - Turn ELSE r
(* the steps a phase can make from k1 to k2: the shortest way round, two of them at half a turn *)
Steps(k1, k2) == LET s == Principal(k2 - k1) IN IF s = Half THEN {Half, -Half} ELSE {s}
(* u unwraps the phases ks *)
Unwraps(u, ks) == /\ Len(u) = Len(ks)
                  /\ \A q \in 1..Len(ks) : SameDir(u[q], ks[q])
                  /\ \A q \in 2..Len(ks) : u[q] - u[q - 1] \in Steps(ks[q - 1], ks[q])
(* where a sequence may start: its principal angle, moved by a turn to the side of the first sequence *)
StartOf(k, k0) == LET a == Principal(k) b == Principal(k0)
                      ends(x) == IF x = Half THEN {Half, -Half} ELSE {x}
                  IN UNION {LET up == AbsI(x - y + Turn) dn == AbsI(x - y - Turn) IN
                            (IF up <= Close THEN {x + Turn} ELSE IF dn <= Close THEN {x - Turn} ELSE {x})
                            : x \in ends(a), y \in ends(b)}
(* the unwrapped phases, the positive step at half a turn *)
RECURSIVE UnwrapFrom(_, _)
UnwrapFrom(ks, u) == IF Len(u) = Len(ks) THEN u
                     ELSE LET n == Len(u) IN UnwrapFrom(ks, Append(u, u[n] + Principal(ks[n + 1] - ks[n])))
Unwrap(ks) == IF ks = <<>> THEN <<>> ELSE UnwrapFrom(ks, <<Principal(ks[1])>>)
HasTie(ks) == \E q \in 2..Len(ks) : Principal(ks[q] - ks[q - 1]) = Half

(* --- lines of an array along an axis ------------------------------------------ *)
(* the flat indices of the line through flat index 0-based n along axis ax *)
LineOf(shape, ax, n) == LET ix == Unravel(n, shape) IN [q \in 1..shape[ax] |-> Ravel([ix EXCEPT ![ax] = q - 1], shape) + 1]
Lines(shape, ax) == {LineOf(shape, ax, n) : n \in 0..Size(shape) - 1}
Along(v, line) == [q \in 1..Len(line) |-> v[line[q]]]

(* --- smoothing ------------------------------------------------------------------ *)
Width(n, ap, q) == Min2(Min2(q - 1, ap \div 2), n - q)
(* the window of sample q of n: centred, shrinking at the ends; an even aperture leaves out the last *)
Window(n, ap, q) == LET w == Width(n, ap, q) IN IF w = 0 THEN {q} ELSE q - w..(q + w - IF ap % 2 = 0 THEN 1 ELSE 0)
RECURSIVE SumOver(_, _)
SumOver(s, W) == IF W = {} THEN 0 ELSE LET q == CHOOSE q \in W : TRUE IN s[q] + SumOver(s, W \ {q})
RECURSIVE SumOverP(_, _)
SumOverP(s, W) == IF W = {} THEN 0 ELSE LET q == CHOOSE q \in W : TRUE IN AddP(s[q] % P, SumOverP(s, W \ {q}))
SmoothP(s, ap) == [q \in 1..Len(s) |-> LET W == Window(Len(s), ap, q) IN DivP(SumOverP(s, W), Cardinality(W))]

(* --- interpolation ---------------------------------------------------------------- *)
(* x strictly increasing integers, t a coordinate in quarters; the segment used, the outer ones beyond the ends *)
Segment(x, t) == LET inside == {q \in 1..Len(x) - 1 : 4 * x[q] <= t /\ t <= 4 * x[q + 1]}
                 IN IF inside # {} THEN MinOf(inside) ELSE IF t < 4 * x[1] THEN 1 ELSE Len(x) - 1
InterpP(x, y, t) == LET s == Segment(x, t) d == 4 * (x[s + 1] - x[s]) IN
                    DivP(AddP(MulP((t - 4 * x[s]) % P, y[s + 1]), MulP((4 * x[s + 1] - t) % P, y[s])), d)
Outside(x, t) == t < 4 * x[1] \/ t > 4 * x[Len(x)]
(* polynomials with integer coefficients, highest power first *)
RECURSIVE Horner(_, _, _)
Horner(c, x, acc) == IF c = <<>> THEN acc ELSE Horner(Tail(c), x, acc * x + Head(c))
Poly(c, x) == Horner(c, x, 0)
=============================================================================
