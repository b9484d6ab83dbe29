----------------------------- MODULE ArraySpec ------------------------------
(* State machine of a session with labelled arrays: a heap of named arrays;  *)
(* every public operation is one action that reads some of them and binds    *)
(* its result to a name, or fails and changes nothing.                       *)
EXTENDS Arrays

VARIABLE heap

(* meaning of operation record o in heap h *)
Meaning(h, o) ==
    CASE o.op = "new"       -> Ok(o.arr)
      [] o.op = "bin"       -> Binary(o.f, h[o.x], h[o.y])
      [] o.op = "scal"      -> WithScalar(o.f, h[o.x], o.s, o.left)
      [] o.op = "un"        -> Unary(o.f, h[o.x])
      [] o.op = "index"     -> Index(h[o.x], o.items)
      [] o.op = "mask"      -> MaskIndex(h[o.x], h[o.m], o.anon)
      [] o.op = "take"      -> LET ax == ItemAxes(h[o.x], o.axis) IN
                               IF ax = {0} THEN Err ELSE TakeAxis(h[o.x], CHOOSE i \in ax : TRUE, o.l)
      [] o.op = "transpose" -> IF o.perm = <<>> THEN Ok(Transposed(h[o.x], Rev(IotaFrom(1, NDim(h[o.x])))))
                               ELSE Ok(Transposed(h[o.x], o.perm))
      [] o.op = "reorder"   -> LET front == [k \in 1..Len(o.names) |-> NameIdx(h[o.x].dims, o.names[k])] IN
                               IF 0 \in Range(front) THEN Err ELSE Ok(Transposed(h[o.x], ReorderPerm(h[o.x], front)))
      [] o.op = "t"         -> Ok(MatTranspose(h[o.x]))
      [] o.op = "squeeze"   -> LET x == h[o.x]
                                   axes == IF o.axis.t = "none" THEN {i \in 1..NDim(x) : x.shape[i] = 1} ELSE AxesOf(x, o.axis)
                               IN IF \E i \in axes : i = 0 \/ (i # 0 /\ x.shape[i] # 1) THEN Err ELSE Ok(DropAxes(x, axes))
      [] o.op = "add_dim"   -> Ok(AddDim(h[o.x], o.d, o.axis))
      [] o.op = "replace"   -> IF o.strict /\ NameIdx(h[o.x].dims, o.old) = 0 THEN Err
                               ELSE Ok([h[o.x] EXCEPT !.dims = ReplaceByName(@, o.old, o.d)])
      [] o.op = "align"     -> LET nd == DimsUnion([k \in 1..Len(o.xs) |-> h[o.xs[k]]]) IN
                               IF \E k \in 1..Len(o.xs) : ~CanReshape(h[o.xs[k]], nd) THEN Err
                               ELSE Ok(Reshaped(h[o.xs[o.pick]], nd))
      [] o.op = "expand"    -> IF o.axis = 0 THEN Ok(ExpandAll(h[o.x], 1)) ELSE Ok(ExpandDiag(h[o.x], o.axis))
      [] o.op = "fullcplx"  -> Ok(FullComplex(h[o.x]))
      [] o.op = "tail"      -> Ok(RemoveTail(h[o.x]))
      [] o.op = "norep"     -> Ok(RemoveRep(h[o.x], o.n))
      [] o.op = "red"       -> Reduce(o.f, h[o.x], o.axis, o.keep, o.strict, o.ddof)
      [] o.op = "cum"       -> LET ax == AxesOf(h[o.x], o.axis) IN
                               IF o.axis.t = "none" THEN Err ELSE Cumulative(o.f, h[o.x], ax)
      [] o.op \in {"copy", "view"} -> Ok(h[o.x])
      [] o.op = "mkmat"     -> (* raw data of x, dims given, two trailing axes become i, j *)
                               LET x == h[o.x] n == NDim(x) IN
                               Ok([x EXCEPT !.dims = Take(@, n - 2) \o
                                     <<Dim("DimMatrix_i", "i", IotaLabels(x.shape[n-1]), None, "%d"),
                                       Dim("DimMatrix_j", "j", IotaLabels(x.shape[n]), None, "%d")>>])

KeepsMeta == {"new", "index", "mask", "transpose", "reorder", "t", "squeeze", "copy", "view", "replace", "take", "align", "norep", "tail"}
InPlace == {"replace"}

Step(o) == LET m == Meaning(heap, o) IN
           heap' = IF m.st = "ok" THEN [r \in DOMAIN heap \cup {o.dst} |-> IF r = o.dst THEN m.val ELSE heap[r]]
                   ELSE heap

(* ---- laws: what users rely on, stated independently of Meaning ------------- *)
(* value of a at a coordinate assignment given as a function from axis number *)
Coords(a) == {Unravel(k - 1, a.shape) : k \in 1..Size(a.shape)}
BagOf(s) == [v \in Range(s) |-> Cardinality({k \in 1..Len(s) : s[k] = v})]
(* label of axis i at position p; a kept (length one) axis has no own label *)
Lab(a, i, p) == IF a.shape[i] = Len(a.dims[i].data) THEN a.dims[i].data[p + 1] ELSE "*"
Point(a, ix) == {<<a.dims[i].name, a.dims[i].cls, Lab(a, i, ix[i])>> : i \in 1..Len(ix)}
(* every (labelled point, value) of r comes from x *)
SubsetOfPoints(r, x, extra) ==
    \A ix \in Coords(r) : \E jx \in Coords(x) :
        At(r, ix) = At(x, jx) /\ (Point(r, ix) \ extra) \subseteq Point(x, jx)
Law(h, o, m) ==
    m.st = "ok" =>
      LET r == m.val IN
      /\ WellShaped(r)
      /\ CASE o.op = "bin" -> /\ PointwiseLaw(o.f, h[o.x], h[o.y], r)
                              /\ \A d \in Range(h[o.x].dims) \cup Range(h[o.y].dims) : \E e \in Range(r.dims) : e.name = d.name /\ e.cls = d.cls
                              /\ \A i, j \in 1..Len(r.dims) : i < j => Prio(r.dims[i].cls) <= Prio(r.dims[j].cls)
           [] o.op \in {"index", "take"} -> SubsetOfPoints(r, h[o.x], {})
           [] o.op = "mask" -> /\ Len(h[o.m].dims) = 1 => SubsetOfPoints(r, h[o.x], {})
                               /\ Size(r.shape) * Size(h[o.m].shape) = Size(h[o.x].shape) * SumSeq(h[o.m].vals)
           [] o.op \in {"transpose", "reorder", "squeeze"} ->
                  /\ BagOf(r.vals) = BagOf(h[o.x].vals)
                  /\ SubsetOfPoints(r, h[o.x], {})
           [] o.op = "red" -> /\ o.keep => Len(r.dims) = Len(h[o.x].dims)
                              /\ o.f = "sum" => SumP(r.vals) = SumP(h[o.x].vals)
                              /\ (o.f = "max" /\ Len(h[o.x].vals) > 0) => FoldMax(r.vals) = FoldMax(h[o.x].vals)
           [] o.op = "norep" -> BagOf(r.vals) = BagOf(h[o.x].vals)
           [] o.op = "t" -> MatTranspose(r) = h[o.x]
           [] o.op = "expand" /\ o.axis # 0 -> SumP(r.vals) = SumP(h[o.x].vals)
           [] OTHER -> TRUE
=============================================================================
