------------------------------ MODULE MCArray -------------------------------
(* Bounded exhaustive model of ArraySpec: two arrays over small dimensions,   *)
(* every operation with every (small) argument, Depth steps; the laws are     *)
(* checked on every transition.  With HistOn the operation history is kept    *)
(* and printed, which is how behaviours for replay against the real code are  *)
(* generated (tlc -simulate).                                                 *)
EXTENDS ArraySpec, Json

CONSTANTS Depth, HistOn, OpSet
VARIABLES hist, first

f2 == Dim("DimSweep", "f", <<"10", "20">>, "Hz", "%d")
g3 == Dim("DimSweep", "g", <<"1", "2", "3">>, None, "%d")
r2 == Dim("DimRep", "r", <<"0", "1">>, None, "%d")
q1 == Dim("DimRep", "q", <<"7">>, None, "%d")
i2 == Dim("DimMatrix_i", "i", <<"0", "1">>, None, "%d")
j2 == Dim("DimMatrix_j", "j", <<"0", "1">>, None, "%d")
Mk(ds, off, u) == LET sh == [k \in 1..Len(ds) |-> Len(ds[k].data)] IN
    Arr(ds, sh, "int", [k \in 1..Size(sh) |-> off + k * (IF off = 0 THEN 1 ELSE 2)], <<>>, u, "%d")
Inits == { [a |-> Mk(<<f2, r2>>, 0, "V"), b |-> Mk(<<r2>>, 5, None)],
           [a |-> Mk(<<r2, f2>>, 0, "V"), b |-> Mk(<<f2, g3>>, 5, None)],
           [a |-> Mk(<<i2, f2, j2>>, 0, None), b |-> Mk(<<q1, r2>>, 5, "A")],
           [a |-> Mk(<<>>, 0, None), b |-> Mk(<<g3, q1>>, 5, "A")],
           [a |-> Mk(<<q1, f2>>, 0, None), b |-> Mk(<<r2, i2>>, 7, None)] }
Regs == {"a", "b"}
AxisItems(x) == {[t |-> "idx", i |-> k] : k \in 0..(NDim(x) - 1)} \cup {[t |-> "idx", i |-> -1]}
                \cup {[t |-> "name", n |-> x.dims[k].name] : k \in 1..NDim(x)}
                \cup {[t |-> "cls", c |-> c] : c \in {"DimRep", "DimSweep"}}
                \cup {[t |-> "dim", d |-> x.dims[k]] : k \in 1..NDim(x)}
AxisArgs(x) == {[t |-> "none"]} \cup {[t |-> "list", items |-> <<it>>] : it \in AxisItems(x)}
               \cup (IF NDim(x) >= 2 THEN {[t |-> "list", items |-> <<[t |-> "idx", i |-> 0], [t |-> "name", n |-> x.dims[2].name]>>]} ELSE {})
Sl(a, b, s) == [t |-> "slice", a |-> a, b |-> b, s |-> s]
Ell == [t |-> "ell"]
It(k) == [t |-> "int", i |-> k]
IndexArgs(x) == {<<It(0)>>, <<It(-1)>>, <<Sl(<<1>>, <<>>, <<>>)>>, <<Sl(<<>>, <<>>, <<-1>>)>>, <<Ell, It(0)>>,
                 <<Ell, Sl(<<>>, <<1>>, <<>>)>>, <<Sl(<<>>, <<>>, <<2>>), Ell>>, <<[t |-> "list", l |-> <<1, 0>>]>>, <<It(5)>>}
Perms(n) == {p \in [1..n -> 1..n] : IsPerm(p, n)}
UniqueNames(x) == Cardinality({x.dims[k].name : k \in 1..NDim(x)}) = NDim(x)
Candidates(h) ==
    LET
    un == UNION {
       {[op |-> "un", f |-> "neg", x |-> x, dst |-> "a"]}
       \cup {[op |-> "index", x |-> x, items |-> it, dst |-> "a"] : it \in IndexArgs(h[x])}
       \cup {[op |-> "transpose", x |-> x, perm |-> p, dst |-> "a"] : p \in Perms(NDim(h[x])) \cup {<<>>}}
       \cup {[op |-> "squeeze", x |-> x, axis |-> ax, dst |-> "a"] : ax \in AxisArgs(h[x])}
       \cup {[op |-> "red", f |-> f, x |-> x, axis |-> ax, keep |-> k, strict |-> TRUE, ddof |-> 0, dst |-> "a"] :
                f \in {"sum", "max"}, ax \in AxisArgs(h[x]), k \in BOOLEAN}
       \cup {[op |-> "cum", f |-> "cumsum", x |-> x, axis |-> ax, dst |-> "a"] : ax \in AxisArgs(h[x])}
       \cup {[op |-> "add_dim", x |-> x, d |-> g3, axis |-> k, dst |-> "a"] : k \in 0..1}
       \cup {[op |-> "t", x |-> x, dst |-> "a"]}
       \cup {[op |-> "norep", x |-> x, n |-> "all", dst |-> "a"]}
       \cup (IF NDim(h[x]) > 0 /\ TrailingMatrix(h[x]) THEN {[op |-> "tail", x |-> x, dst |-> "a"]} ELSE {})
       \cup {[op |-> "expand", x |-> x, axis |-> k, dst |-> "a"] : k \in {j \in 1..NDim(h[x]) : IsKind(h[x].dims[j].cls, "_DiagAxis")}}
       \cup {[op |-> "reorder", x |-> x, names |-> <<h[x].dims[k].name>>, dst |-> "a"] : k \in 1..NDim(h[x])}
       : x \in {y \in Regs : UniqueNames(h[y]) /\ Labelled(h[y]) /\ (\A k \in 1..NDim(h[y]) : Len(h[y].dims[k].data) = h[y].shape[k]) /\ NDim(h[y]) <= 4} }
    bi == {[op |-> "bin", f |-> f, x |-> x, y |-> y, dst |-> "b"] : f \in {"add", "sub", "mul", "eq", "lt"}, x \in Regs, y \in Regs}
    cm == {[op |-> "bin", f |-> "eq", x |-> x, y |-> y, dst |-> "b"] : x \in Regs, y \in Regs}
    IN {o \in un \cup bi \cup cm : o.op \in OpSet}
Small(a) == Size(a.shape) <= 24 /\ NDim(a) <= 5 /\ \A k \in 1..Len(a.vals) : AbsI(a.vals[k]) < 10000

Init == heap \in Inits /\ hist = <<>> /\ first = (IF HistOn THEN heap ELSE <<>>)
Next == /\ Len(hist) < Depth \/ ~HistOn
        /\ \E o \in Candidates(heap) :
             LET m == Meaning(heap, o) IN
             /\ m.st = "ok" => Small(m.val)
             /\ Assert(Law(heap, o, m), <<"law broken", o>>)
             /\ Step(o)
             /\ first' = first
             /\ hist' = IF HistOn THEN Append(hist, o) ELSE hist
Spec == Init /\ [][Next]_<<heap, hist, first>>
InvShaped == \A r \in DOMAIN heap : WellShaped(heap[r])
Bound == TLCGet("level") <= Depth
Emit == (HistOn /\ Len(hist) = Depth) => PrintT("BEHAVIOUR " \o ToJson([init |-> first, ops |-> hist]))
=============================================================================
