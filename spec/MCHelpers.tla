----------------------------- MODULE MCHelpers ------------------------------
(* Bounded model: a phase walks round in eighths of a turn, with samples of a *)
(* small integer signal beside it; the helpers are checked on every history. *)
EXTENDS Helpers, TLC, Json
CONSTANTS MaxLen, HistOn
VARIABLES ks, ys, turns
vars == <<ks, ys, turns>>
Eighth == Turn \div 8
(* turns is the phase with its turns counted, what unwrapping has to recover *)
Init == ks = <<>> /\ ys = <<>> /\ turns = <<>>
Move == \E s \in -3..3, y \in -1..2 :
           LET u == IF turns = <<>> THEN s * Eighth ELSE turns[Len(turns)] + s * Eighth IN
           ks' = Append(ks, u % Turn) /\ turns' = Append(turns, u) /\ ys' = Append(ys, y)
Next == Len(ks) < MaxLen /\ Move
Spec == Init /\ [][Next]_vars
InvUnwrap == Unwrap(ks) = turns /\ Unwraps(turns, ks)
(* a phase that unwraps is unique up to whole turns *)
InvUnique == \A n \in {-1, 0, 1}, q \in 1..Len(ks) : n # 0 => ~Unwraps([turns EXCEPT ![q] = @ + n * Turn], ks) \/ Len(ks) = 1
InvBranch == \A q \in 1..Len(ks), b \in {-Half, 0, 3 * Eighth} :
                Cardinality({n \in -3..3 : InBranch(Principal(ks[q]) + n * Turn, b)}) = (IF SameDir(ks[q], b) THEN 2 ELSE 1)
(* the delays add up to the whole phase *)
RECURSIVE Total(_)
Total(s) == IF Len(s) < 2 THEN 0 ELSE Principal(s[2] - s[1]) + Total(Tail(s))
InvDelay == ks # <<>> => Total(ks) = turns[Len(turns)] - turns[1]
InvWindow == \A ap \in 1..5, q \in 1..Len(ys) :
                LET n == Len(ys) W == Window(n, ap, q) IN
                /\ W \subseteq 1..n /\ q \in W /\ Cardinality(W) <= Max2(ap, 1)
                /\ (ap % 2 = 1 => \A r \in W : 2 * q - r \in W)
                /\ (q \in {1, n} => W = {q})
InvConst == \A ap \in 1..5 : SmoothP([q \in 1..Len(ys) |-> 7], ap) = [q \in 1..Len(ys) |-> 7]
(* interpolation over 1, 2, 4, 7 ...: the points, straight lines, and linearity in y *)
X(n) == [q \in 1..n |-> 1 + (q * (q - 1)) \div 2]
InvInterp == Len(ys) >= 2 => LET x == X(Len(ys)) IN
                /\ \A q \in 1..Len(ys) : InterpP(x, ys, 4 * x[q]) = ys[q] % P
                /\ \A t \in 0..4 * x[Len(x)] + 3 : MulP(4, InterpP(x, [q \in 1..Len(x) |-> 3 * x[q] + 2], t)) = (3 * t + 8) % P
Emit == (HistOn /\ Len(ks) >= 2) => PrintT("BEHAVIOUR " \o ToJson([ks |-> ks, ys |-> ys]))
=============================================================================
