------------------------------ MODULE MCAlias -------------------------------
(* Bounded model of Alias: one array, up to three names, every interleaving   *)
(* of viewing, slicing, transposing, copying, adding and writing.  Checked on *)
(* every transition: computing never changes an existing array; a write is    *)
(* seen exactly by the arrays holding the written cells; copies are apart.    *)
EXTENDS Alias, Json
CONSTANTS Depth, HistOn
VARIABLES hist, first

f2 == Dim("DimSweep", "f", <<"10", "20">>, "Hz", "%d")
r2 == Dim("DimRep", "r", <<"0", "1">>, None, "%d")
A0 == Arr(<<f2, r2>>, <<2, 2>>, "int", <<1, 2, 3, 4>>, <<>>, "V", "%d")
B0 == Arr(<<r2>>, <<2>>, "int", <<5, 6>>, <<>>, None, "%.3f")
Names == {"a", "b", "c"}
Sl(a, b, s) == [t |-> "slice", a |-> a, b |-> b, s |-> s]
It(k) == [t |-> "int", i |-> k]
Items == {<<It(0)>>, <<Sl(<<1>>, <<>>, <<>>)>>, <<[t |-> "ell"], It(1)>>, <<Sl(<<>>, <<>>, <<-1>>)>>}
Ops(h) == UNION {
    {[op |-> k, x |-> x, dst |-> d] : k \in {"view", "copy", "ctor"}, d \in Names}
    \cup {[op |-> "index", x |-> x, items |-> it, dst |-> d] : it \in Items, d \in Names}
    \cup {[op |-> "transpose", x |-> x, perm |-> <<>>, dst |-> d] : d \in Names}
    \cup {[op |-> "bin", f |-> "add", x |-> x, y |-> y, dst |-> d] : y \in DOMAIN h, d \in Names}
    \cup {[op |-> "write", x |-> x, items |-> it, vs |-> <<9>>, dst |-> x] : it \in Items}
    \cup {[op |-> "iadd", x |-> x, v |-> 2, dst |-> x]}
    \cup {[op |-> "setunit", x |-> x, u |-> "A", dst |-> x]}
    : x \in {q \in DOMAIN h : h[q].shape # <<>>} }
Cells(h, r) == Range(h[r].vals)
LawA(w, o, nw) ==
    /\ o.op \notin Mutations => \A r \in DOMAIN w.h : r # o.dst => Values(w.h[r], w.st) = Values(nw.h[r], nw.st)
    /\ o.op \in {"write", "iadd"} => \A r \in DOMAIN w.h :
            Cells(w.h, r) \cap Cells(w.h, o.x) = {} => Values(w.h[r], w.st) = Values(nw.h[r], nw.st)
    /\ o.op \in {"copy", "ctor"} => \A r \in DOMAIN w.h \ {o.dst} : Cells(nw.h, o.dst) \cap Cells(nw.h, r) = {}
    /\ o.op \in {"copy", "view", "ctor"} => nw.h[o.dst].unit = w.h[o.x].unit /\ nw.h[o.dst].fmt = w.h[o.x].fmt
    /\ o.op \in {"view", "transpose"} => Cells(nw.h, o.dst) = Cells(w.h, o.x)
    /\ \A r \in DOMAIN nw.h : WellShaped(nw.h[r])
Init == LET w == FreshAll(World(<<>>, <<>>), {"a", "b"}, [a |-> A0, b |-> B0]) IN
        heap = w.h /\ store = w.st /\ hist = <<>> /\ first = [a |-> A0, b |-> B0]
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops(heap) : \E sh \in Allowed(World(heap, store), o) :
             LET m == Outcome(World(heap, store), o, sh) IN
             /\ m.st = "ok"
             /\ Len(m.val.st) <= 30
             /\ Assert(LawA(World(heap, store), o, m.val), <<"law broken", o>>)
             /\ heap' = m.val.h /\ store' = m.val.st
             /\ hist' = Append(hist, IF HistOn THEN o ELSE 0) /\ first' = first
Spec == Init /\ [][Next]_<<heap, store, hist, first>>
Emit == (HistOn /\ Len(hist) = Depth) => PrintT("BEHAVIOUR " \o ToJson([init |-> first, ops |-> hist]))
=============================================================================
