------------------------------- MODULE MCNets -------------------------------
(* Bounded model of network sessions: a two-port is converted from kind to    *)
(* kind, extended on either side and de-embedded again.  ref is the S form    *)
(* (50 ohm) of what the history implies, kept independently of the kind and   *)
(* reference the current description has.                                     *)
EXTENDS Nets, Json
CONSTANTS Depth, HistOn, Few
VARIABLES start, cur, ref, parts, hist
vars == <<heap, start, cur, ref, parts, hist>>
(* values are m/den *)
Mat(net) == [r \in 1..2 |-> [c \in 1..2 |-> MulP(net.m[r][c], InvP(net.den))]]
N(k, z, m, d) == [kind |-> k, z0 |-> z, m |-> m, den |-> d]
Starts == {N("Z", 50, <<<<50, 10>>, <<20, 75>>>>, 1), N("Z", 50, <<<<1, 2>>, <<3, 4>>>>, 1),
           N("S", 50, <<<<1, 2>>, <<3, -1>>>>, 4), N("S", 75, <<<<0, 1>>, <<2, 1>>>>, 4),
           N("Y", 50, <<<<2, -1>>, <<3, 1>>>>, 50), N("A", 50, <<<<2, 50>>, <<0, 1>>>>, 1),
           N("H", 50, <<<<50, 1>>, <<4, 0>>>>, 1), N("G", 50, <<<<1, 2>>, <<3, 100>>>>, 2),
           N("T", 50, <<<<1, 2>>, <<1, 4>>>>, 2), N("Tp", 50, <<<<2, 1>>, <<-1, 3>>>>, 2)}
Blocks2 == IF Few THEN {N("S", 50, <<<<1, 3>>, <<2, 0>>>>, 4), N("Z", 50, <<<<100, 50>>, <<25, 50>>>>, 1)}
           ELSE {N("S", 50, <<<<1, 3>>, <<2, 0>>>>, 4), N("S", 100, <<<<-1, 1>>, <<1, 1>>>>, 2), N("Z", 50, <<<<100, 50>>, <<25, 50>>>>, 1),
                 N("A", 50, <<<<1, 25>>, <<0, 1>>>>, 1), N("T", 50, <<<<2, 0>>, <<1, 1>>>>, 2)}
SF(net) == ConvM(net.kind, net.z0, Mat(net), "S", 50)
Has(net) == Exists2(net.kind, net.z0, Mat(net), "S", 50)
TExists(S) == Exists2("S", 50, S, "T", 50)
TF(S) == ConvM("S", 50, S, "T", 50)
FromT(T) == ConvM("T", 50, T, "S", 50)
CanFromT(T) == Exists2("T", 50, T, "S", 50)

Init == /\ heap = <<>>
        /\ start \in {s \in Starts : Has(s)}
        /\ cur = [kind |-> start.kind, z0 |-> start.z0, M |-> Mat(start)]
        /\ ref = SF(start)
        /\ parts = <<[side |-> "mid", S |-> SF(start)]>>
        /\ hist = <<>>
Log1(o) == hist' = IF HistOn THEN Append(hist, o) ELSE Append(hist, "x")
Conv(k, z) == /\ Exists2(cur.kind, cur.z0, cur.M, k, z)
              /\ cur' = [kind |-> k, z0 |-> z, M |-> ConvM(cur.kind, cur.z0, cur.M, k, z)]
              /\ UNCHANGED <<ref, parts, start, heap>>
              /\ Log1([op |-> "conv", kind |-> k, z0 |-> z])
(* the result is described in the kind of the current description *)
Become(S) == /\ Exists2("S", 50, S, cur.kind, 50)
             /\ cur' = [kind |-> cur.kind, z0 |-> 50, M |-> ConvM("S", 50, S, cur.kind, 50)]
Add(b, side) ==
    LET S == ConvM(cur.kind, cur.z0, cur.M, "S", 50)
        Q == IF side = "right" THEN Join(S, SF(b)) ELSE Join(SF(b), S)
        R == IF side = "right" THEN Join(ref, SF(b)) ELSE Join(SF(b), ref)
        den == IF side = "right" THEN JoinDen(S, SF(b)) ELSE JoinDen(SF(b), S)
    IN /\ Exists2(cur.kind, cur.z0, cur.M, "S", 50) /\ Has(b) /\ den # 0
       /\ TExists(SF(b)) /\ TExists(Q) /\ DetP(TF(SF(b))) # 0
       /\ Become(Q) /\ ref' = R
       /\ parts' = IF side = "right" THEN Append(parts, [side |-> "right", S |-> SF(b), b |-> b]) ELSE <<[side |-> "left", S |-> SF(b), b |-> b]>> \o parts
       /\ Log1([op |-> side, net |-> b]) /\ UNCHANGED <<start, heap>>
(* taking the outermost part off again *)
Remove(side) ==
    LET p == IF side = "left" THEN Head(parts) ELSE parts[Len(parts)]
        S == ConvM(cur.kind, cur.z0, cur.M, "S", 50)
        T == IF side = "left" THEN MatMul(InvM(TF(p.S)), TF(S)) ELSE MatMul(TF(S), InvM(TF(p.S)))
        left == IF side = "left" THEN Tail(parts) ELSE Take(parts, Len(parts) - 1)
    IN /\ p.side = side /\ Exists2(cur.kind, cur.z0, cur.M, "S", 50) /\ TExists(S) /\ CanFromT(T)
       /\ Become(FromT(T))
       /\ parts' = left
       /\ ref' = FromT(T)
       /\ Log1([op |-> "un" \o side, net |-> p.b]) /\ UNCHANGED <<start, heap>>
Next == /\ Len(hist) < Depth
        /\ \/ \E k \in Kinds : \E z \in (IF k \in WaveKinds THEN {50, 75} ELSE {50}) : (k \in {"T", "Tp"} => z = 50) /\ Conv(k, z)
           \/ \E b \in Blocks2, side \in {"left", "right"} : Add(b, side)
           \/ \E side \in {"left", "right"} : Remove(side)
Spec == Init /\ [][Next]_vars
(* whatever the history of conversions, the description is of the network the history implies *)
InvSame == SameNetwork("S", 50, ref, cur.kind, cur.z0, cur.M)
(* folding the parts in any association gives ref: cascading is associative, de-embedding undoes it *)
RECURSIVE FoldL(_), FoldR(_), Joinable(_), JoinableR(_)
FoldL(s) == IF Len(s) = 1 THEN s[1].S ELSE Join(FoldL(Take(s, Len(s) - 1)), s[Len(s)].S)
FoldR(s) == IF Len(s) = 1 THEN s[1].S ELSE Join(s[1].S, FoldR(Tail(s)))
Joinable(s) == Len(s) = 1 \/ (Joinable(Take(s, Len(s) - 1)) /\ JoinDen(FoldL(Take(s, Len(s) - 1)), s[Len(s)].S) # 0)
JoinableR(s) == Len(s) = 1 \/ (JoinableR(Tail(s)) /\ JoinDen(s[1].S, FoldR(Tail(s))) # 0)
InvChain == /\ Joinable(parts) => SameM(FoldL(parts), ref)
            /\ JoinableR(parts) => SameM(FoldR(parts), ref)
InvThrough == SameM(Join(ref, Through), ref) /\ SameM(Join(Through, ref), ref)
(* cascading is the product of the chain matrices *)
InvProduct == (Len(parts) = 2 /\ Joinable(parts) /\ TExists(parts[1].S) /\ TExists(parts[2].S) /\ TExists(ref)) =>
                 SameM(MatMul(TF(parts[1].S), TF(parts[2].S)), TF(ref))
(* thermal noise is the same noise from every representation (real parameters) *)
RealM(M) == M
InvThermal == \A k \in {"Z", "Y", "S"} : Exists2("S", 50, ref, k, 50) =>
                 LET M == ConvM("S", 50, ref, k, 50) IN
                 SameNoise("S", 50, ref, ref, Thermal("S", ref, ref), k, 50, Thermal(k, M, M))
Emit == (HistOn /\ Len(hist) = Depth) => PrintT("BEHAVIOUR " \o ToJson([start |-> start, ops |-> hist]))
=============================================================================
