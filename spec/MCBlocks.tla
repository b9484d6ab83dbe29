------------------------------ MODULE MCBlocks ------------------------------
(* Bounded model of Blocks: two blocks over sweep f, repetitions r, q and     *)
(* matrix dimensions; every edit and transformation with small arguments.     *)
(* Checked on every transition: blocks stay coherent, other blocks are left   *)
(* alone, transformations keep every value with its coordinates.              *)
EXTENDS Blocks, Json
CONSTANTS Depth, HistOn, Mode
VARIABLES hist

f2 == Dim("DimSweep", "f", <<"20", "10">>, "Hz", "%d")
r2 == Dim("DimRep", "r", <<"0", "1">>, None, "%d")
q2 == Dim("DimRep", "q", <<"5", "6">>, None, "%d")
i2 == Dim("DimMatrix_i", "i", <<"0", "1">>, None, "%d")
j2 == Dim("DimMatrix_j", "j", <<"0", "1">>, None, "%d")
o1 == Dim("DimSweep", "o", <<"3">>, None, "%d")
x4 == Dim("DimSweep", "idx", <<"0", "1", "2", "3">>, None, "%d")
Mk(ds, off, u) == LET sh == [k \in 1..Len(ds) |-> Len(ds[k].data)] IN
    Arr(ds, sh, "int", [k \in 1..Size(sh) |-> off + k], <<>>, u, "%d")
V(n, a) == [n |-> n, a |-> a]
PA == Arr(<<x4>>, <<4>>, "int", <<7, 3, 7, 3>>, <<>>, "V", "%d")
PB == Arr(<<x4>>, <<4>>, "int", <<1, 1, 2, 2>>, <<>>, None, "%d")
PBbad == [PB EXCEPT !.vals = <<1, 2, 1, 1>>]
B1 == FromVars(EmptyBlock, <<V("a", Mk(<<f2, r2>>, 0, "V")), V("S", Mk(<<f2, i2, j2>>, 10, None)), V("b", Mk(<<q2, f2>>, 30, None)), V("c", Mk(<<o1>>, 50, None))>>)
B2 == FromVars(EmptyBlock, <<V("pa", PA), V("pb", PB), V("y", Mk(<<r2, x4>>, 60, "A")), V("w", Mk(<<r2>>, 80, None))>>)
B3 == FromVars(EmptyBlock, <<V("pa", PA), V("pb", PBbad), V("y", Mk(<<x4>>, 60, "A"))>>)
Nm == {"a", "S", "x"}
Arrs == {Mk(<<f2>>, 100, "m"), Mk(<<r2, f2>>, 110, None), Mk(<<>>, 120, None)}
Free(b, n) == ~HasVar(b, n) /\ ~HasIvar(b, n)
EditOps(bs) == UNION { LET b == bs[r] IN
       {[op |-> "setvar", b |-> r, n |-> n, mat |-> None, i |-> 0, j |-> 0, arr |-> a, labels |-> <<>>, dst |-> r] : n \in Nm, a \in Arrs}
  \cup {[op |-> "setvar", b |-> r, n |-> "S12", mat |-> "S", i |-> 1, j |-> 2, arr |-> a, labels |-> <<>>, dst |-> r] : a \in {x \in {Mk(<<f2>>, 100, "m"), Mk(<<>>, 120, None)} : HasVar(b, "S") => \A q \in 1..NDim(x) : HasDim(Var(b, "S").dims, x.dims[q])}}
  \cup {[op |-> "del", b |-> r, n |-> n, dst |-> r] : n \in {"a", "S", "nosuch"}}
  \cup {[op |-> "rename", b |-> r, n |-> n, new |-> "z", dst |-> r] : n \in {m \in {"a", "f", "r"} : ~Free(b, m) /\ Free(b, "z")}}
  \cup {[op |-> "repdim", b |-> r, old |-> n, d |-> Dim("DimSweep", "g", <<"1", "2">>, None, "%d"), tocls |-> None, dst |-> r] : n \in {m \in {"f", "nosuch"} : Free(b, "g")}}
  \cup {[op |-> "repdim", b |-> r, old |-> "r", d |-> r2, tocls |-> "DimSweep", dst |-> r]}
  \cup {[op |-> "setfmt", b |-> r, n |-> n, f |-> "%.2f", dst |-> r] : n \in {"a", "f", "nosuch"}}
  \cup {[op |-> "fmtall", b |-> r, f |-> "%.9e", dst |-> r]}
  \cup {[op |-> "copy", b |-> r, dst |-> d] : d \in DOMAIN bs}
  \cup {[op |-> "keep", b |-> r, names |-> <<"S", "nosuch", "a">>, dst |-> d] : d \in DOMAIN bs}
  : r \in DOMAIN bs }
XOps(bs) == UNION { LET b == bs[r] IN
       {[op |-> "filter", mode |-> "mask", b |-> r, dim |-> n, m |-> m, dst |-> "b2"] : n \in {k \in {"f", "r", "q"} : HasIvar(b, k) /\ Len(Ivar(b, k).data) = 2}, m \in {<<TRUE, FALSE>>, <<FALSE, TRUE>>, <<FALSE, FALSE>>, <<TRUE, TRUE>>}}
  \cup {[op |-> "filter", mode |-> "values", b |-> r, dim |-> n, want |-> w, dst |-> "b2"] : n \in {k \in {"f", "r"} : HasIvar(b, k)}, w \in {<<"10">>, <<"1", "99">>}}
  \cup {[op |-> "sort", b |-> r, dim |-> "f", by |-> "array", keys |-> <<2, 1>>, dst |-> "b2"] : k \in {q \in {"f"} : HasIvar(b, q) /\ Len(Ivar(b, q).data) = 2}}
  \cup {[op |-> "squeeze", b |-> r, dst |-> "b2"]}
  \cup (IF \A k \in 1..Len(b.vars) : IsMatrix(b.vars[k].a) => TrailMat(b.vars[k].a) THEN {[op |-> "elements", b |-> r, dst |-> "b2"]} ELSE {})
  \cup (IF \E k \in 1..Len(RepDims(b)) : RepDims(b)[k].name \in {"r", "q"} THEN
          IF \A k \in 1..Len(RepDims(b)) : RepDims(b)[k] \in {r2, q2}
          THEN {[op |-> "norep", b |-> r, newname |-> "AllReps", repdata |-> [k \in 1..Len(RepDims(b)) |-> IF RepDims(b)[k] = r2 THEN <<0, 1>> ELSE <<5, 6>>], dst |-> "b2"]} ELSE {} ELSE {})
  \cup (IF HasVar(b, "pa") /\ HasVar(b, "pb") /\ Var(b, "pa").dims = <<x4>>
        THEN {[op |-> "hyper", b |-> r, dimnames |-> dn, rdim |-> "idx", indexed |-> ix, all |-> al, dst |-> "b2"] : dn \in {<<"pa", "pb">>, <<"pb", "pa">>}, ix \in BOOLEAN, al \in BOOLEAN} ELSE {})
  \cup (IF HasIvar(b, "f") /\ Ivar(b, "f") = f2 THEN {[op |-> "interp", mode |-> "none", b |-> r, d |-> [f2 EXCEPT !.data = w], dst |-> "b2"] : w \in {<<"10", "20">>, <<"10">>, <<"15">>}} ELSE {})
  \cup {[op |-> "keep", b |-> r, names |-> <<"S", "y", "a">>, dst |-> "b2"]}
  \cup {[op |-> "copy", b |-> r, dst |-> "b2"]}
  : r \in DOMAIN bs }
LawB(bs, o, m) ==
    m.st = "ok" =>
      LET r == m.val s == bs[o.b] IN
      /\ Coherent(r)
      /\ o.op \in {"rename", "repdim", "setfmt", "fmtall"} => Len(r.vars) = Len(s.vars) /\ Len(r.ivars) = Len(s.ivars)
      /\ o.op \in {"rename", "repdim", "setfmt", "fmtall"} => \A k \in 1..Len(r.vars) : r.vars[k].a.vals = s.vars[k].a.vals /\ r.vars[k].a.shape = s.vars[k].a.shape
      /\ o.op \in {"filter", "sort"} => \A k \in 1..Len(r.vars) : SubsetOfPoints(r.vars[k].a, s.vars[k].a, {}) /\ Len(r.vars) = Len(s.vars)
      /\ o.op = "sort" => \A k \in 1..Len(r.vars) : BagOf(r.vars[k].a.vals) = BagOf(s.vars[k].a.vals)
      /\ o.op = "squeeze" => \A k \in 1..Len(r.vars) : r.vars[k].a.vals = s.vars[k].a.vals
      /\ o.op = "hyper" => \A k \in 1..Len(r.vars) : BagOf(r.vars[k].a.vals) = BagOf(Var(s, r.vars[k].n).vals)
      /\ o.op = "norep" => \A k \in 1..Len(s.vars) : Range(Var(r, s.vars[k].n).vals) = Range(s.vars[k].a.vals)
      /\ o.op = "elements" => SumSeq([k \in 1..Len(r.vars) |-> SumSeq(r.vars[k].a.vals)]) = SumSeq([k \in 1..Len(s.vars) |-> SumSeq(s.vars[k].a.vals)])
      /\ o.op = "interp" => \A k \in 1..Len(r.vars) : SubsetOfPoints(r.vars[k].a, s.vars[k].a, {})
Init == /\ heap = <<>> /\ hist = <<>>
        /\ blocks \in (IF Mode = "edit" THEN {[b1 |-> B1, b2 |-> EmptyBlock]} ELSE {[b1 |-> B1, b2 |-> B2], [b1 |-> B3, b2 |-> B1]})
Next == /\ Len(hist) < Depth
        /\ heap' = heap
        /\ \E o \in (IF Mode = "edit" THEN EditOps(blocks) ELSE XOps(blocks)) :
             LET m == BlockMeaning(blocks, o) IN
             /\ Assert(LawB(blocks, o, m), <<"law broken", o>>)
             /\ Assert((o.op = "hyper" /\ blocks[o.b] = B3) => m.st = "err", "incomplete grid accepted")
             /\ blocks' = IF m.st = "ok" THEN [blocks EXCEPT ![o.dst] = m.val] ELSE blocks
             /\ hist' = Append(hist, IF HistOn THEN [o |-> o, h |-> blocks] ELSE 0)
Spec == Init /\ [][Next]_<<heap, blocks, hist>>
InvCoherent == \A r \in DOMAIN blocks : Coherent(blocks[r])
Emit == (HistOn /\ Len(hist) = Depth) => PrintT("BEHAVIOUR " \o ToJson([init |-> hist[1].h, ops |-> [k \in 1..Len(hist) |-> hist[k].o]]))
=============================================================================
