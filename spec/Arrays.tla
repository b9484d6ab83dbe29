------------------------------- MODULE Arrays -------------------------------
(* Labelled arrays: dimensions, arrays and the meaning of every operation.   *)
(*   Dim   = [cls, name, data : Seq(STRING), unit, fmt]                      *)
(*   Array = [dims, shape, num, vals, cj, unit, fmt]                         *)
(* vals is the row-major sequence of element codes.  num = "int": plain      *)
(* integers (bools are 0/1).  num = "gf": residues modulo P of the exact     *)
(* (Gaussian) rationals; for complex data cj holds the residues of the       *)
(* complex conjugates (<<>> for real data), so real/imag/conj and |.|^2 are  *)
(* expressible.                                                              *)
EXTENDS HFBase, TLC

None == "~"

(* ---- kinds of dimensions ---------------------------------------------- *)
Parent == [ DimBase |-> "", _IndepAxis |-> "DimBase", _DerivAxis |-> "DimBase", _DiagAxis |-> "DimBase",
            IndepAxis |-> "_IndepAxis", DerivAxis |-> "_DerivAxis", DiagAxis |-> "_DiagAxis",
            DimAnonymous |-> "DiagAxis", DimSweep |-> "DiagAxis", DimRep |-> "DiagAxis",
            DimPartial |-> "DimSweep",
            ComplexIndepAxis |-> "_IndepAxis", ComplexDerivAxis |-> "_DerivAxis", ComplexDiagAxis |-> "_DiagAxis",
            _DimMatrix |-> "DiagAxis", DimMatrix_i |-> "_DimMatrix", DimMatrix_j |-> "_DimMatrix",
            DimMatrix_Indep_i |-> "_DimMatrix", DimMatrix_Deriv_i |-> "_DimMatrix",
            DimMatrix_Indep_j |-> "_DimMatrix", DimMatrix_Deriv_j |-> "_DimMatrix" ]
RECURSIVE IsKind(_, _)
IsKind(c, k) == IF c = k THEN TRUE
                ELSE IF c \notin DOMAIN Parent THEN FALSE
                ELSE IF Parent[c] = "" THEN FALSE ELSE IsKind(Parent[c], k)
Prio(c) == CASE c = "DimRep" -> 1
             [] c \in {"_DimMatrix", "DimMatrix_i", "DimMatrix_Indep_i", "DimMatrix_Deriv_i",
                       "DimMatrix_Indep_j", "DimMatrix_Deriv_j"} -> 1000
             [] c = "DimMatrix_j" -> 1001
             [] c = "ComplexDiagAxis" -> 2000
             [] c = "ComplexIndepAxis" -> 2001
             [] c = "ComplexDerivAxis" -> 2002
             [] OTHER -> 0
IndepOf(c) == CASE c = "DimMatrix_i" -> "DimMatrix_Indep_i"
                [] c = "DimMatrix_j" -> "DimMatrix_Indep_j"
                [] c = "ComplexDiagAxis" -> "ComplexIndepAxis"
                [] OTHER -> "IndepAxis"
DerivOf(c) == CASE c = "DimMatrix_i" -> "DimMatrix_Deriv_i"
                [] c = "DimMatrix_j" -> "DimMatrix_Deriv_j"
                [] c = "ComplexDiagAxis" -> "ComplexDerivAxis"
                [] OTHER -> "DerivAxis"
Dim(c, n, d, u, f) == [cls |-> c, name |-> n, data |-> d, unit |-> u, fmt |-> f]
Kind(d, c) == [d EXCEPT !.cls = c]

(* x (in a dims list) answers a request for dimension d *)
Answers(x, d) == x.name = d.name /\ IsKind(x.cls, d.cls)
HasDim(ds, d) == \E i \in 1..Len(ds) : Answers(ds[i], d)
MatchIdx(ds, d) == FirstIdx(ds, LAMBDA x : Answers(x, d))
NameIdx(ds, n) == FirstIdx(ds, LAMBDA x : x.name = n)

(* ---- array basics ------------------------------------------------------- *)
Arr(ds, sh, num, v, c, u, f) ==
    [dims |-> ds, shape |-> sh, num |-> num, vals |-> v, cj |-> c, unit |-> u, fmt |-> f]
IsCplx(a) == a.cj # <<>>
CJ(a) == IF a.cj = <<>> THEN a.vals ELSE a.cj
NDim(a) == Len(a.shape)
At(a, ix) == a.vals[Ravel(ix, a.shape) + 1]
WellShaped(a) == /\ Len(a.dims) = Len(a.shape)
                 /\ Len(a.vals) = Size(a.shape)
                 /\ a.cj = <<>> \/ Len(a.cj) = Len(a.vals)
(* labels describe their axis; a length-one axis may stand for a whole
   (kept) dimension *)
Labelled(a) == \A i \in 1..Len(a.dims) : Len(a.dims[i].data) = a.shape[i] \/ a.shape[i] = 1

(* array whose element at (0-based) index ix of shape sh is that of src at F(ix) *)
Gather(src, ds, sh, F(_)) ==
    LET idx == [k \in 1..Size(sh) |-> Ravel(F(Unravel(k - 1, sh)), src.shape) + 1]
    IN Arr(ds, sh, src.num, [k \in 1..Size(sh) |-> src.vals[idx[k]]],
           IF src.cj = <<>> THEN <<>> ELSE [k \in 1..Size(sh) |-> src.cj[idx[k]]],
           src.unit, src.fmt)

Ok(v) == [st |-> "ok", val |-> v]
Err == [st |-> "err", val |-> <<>>]

(* ---- alignment and binary operators -------------------------------------- *)
RECURSIVE AddMissing(_, _)
AddMissing(acc, ds) ==
    IF ds = <<>> THEN acc
    ELSE AddMissing(IF HasDim(acc, Head(ds)) THEN acc ELSE Append(acc, Head(ds)), Tail(ds))
SortDims(ds) == Permute(ds, StableOrder([i \in 1..Len(ds) |-> Prio(ds[i].cls)]))
RECURSIVE UnionAll(_, _)
UnionAll(acc, arrs) == IF arrs = <<>> THEN acc
                       ELSE UnionAll(AddMissing(acc, Head(arrs).dims), Tail(arrs))
DimsUnion(arrs) == SortDims(UnionAll(Head(arrs).dims, Tail(arrs)))

(* x brought to the dimensions nd; missing ones get length one *)
Reshaped(x, nd) ==
    LET pos == [i \in 1..Len(nd) |-> IF HasDim(x.dims, nd[i]) THEN MatchIdx(x.dims, nd[i]) ELSE 0]
        sh  == [i \in 1..Len(nd) |-> IF pos[i] = 0 THEN 1 ELSE x.shape[pos[i]]]
        back == [j \in 1..Len(x.dims) |-> FirstIdx(pos, LAMBDA p : p = j)]
    IN Gather(x, nd, sh, LAMBDA ix : [j \in 1..Len(x.dims) |-> ix[back[j]]])
CanReshape(x, nd) == \A j \in 1..Len(x.dims) :
                        Cardinality({i \in 1..Len(nd) : HasDim(x.dims, nd[i]) /\ MatchIdx(x.dims, nd[i]) = j}) = 1

BoolOps == {"eq", "ne", "lt", "le", "gt", "ge"}
IntOnly == {"lt", "le", "gt", "ge", "and", "or", "xor"}
B2I(b) == IF b THEN 1 ELSE 0
IntOp(f, a, b) ==
    CASE f = "add" -> a + b
      [] f = "sub" -> a - b
      [] f = "mul" -> a * b
      [] f = "pow" -> PowI(a, b)
      [] f = "eq" -> B2I(a = b)
      [] f = "ne" -> B2I(a # b)
      [] f = "lt" -> B2I(a < b)
      [] f = "le" -> B2I(a <= b)
      [] f = "gt" -> B2I(a > b)
      [] f = "ge" -> B2I(a >= b)
      [] f = "and" -> a * b
      [] f = "or" -> a + b - a * b
      [] f = "xor" -> (a + b) % 2
GfOp(f, a, b) ==
    CASE f = "add" -> AddP(a, b)
      [] f = "sub" -> SubP(a, b)
      [] f = "mul" -> MulP(a, b)
      [] f = "div" -> DivP(a, b)
      [] f = "pow" -> PowP(a, b)
      [] f = "eq" -> B2I(a % P = b % P)
      [] f = "ne" -> B2I(a % P # b % P)
ResNum(f, x, y) ==
    IF f \in BoolOps \cup {"and", "or", "xor"} THEN "int"
    ELSE IF f # "div" /\ x.num = "int" /\ y.num = "int" THEN "int" ELSE "gf"
Op(f, x, y, a, b) == IF f # "div" /\ x.num = "int" /\ y.num = "int" THEN IntOp(f, a, b) ELSE GfOp(f, a, b)

Binary(f, x, y) ==
    LET nd == DimsUnion(<<x, y>>) IN
    IF ~ (CanReshape(x, nd) /\ CanReshape(y, nd)) THEN Err ELSE
    LET X == Reshaped(x, nd)
        Y == Reshaped(y, nd)
        n == Len(nd)
        compatible == \A i \in 1..n : X.shape[i] = Y.shape[i] \/ X.shape[i] = 1 \/ Y.shape[i] = 1
        sh == [i \in 1..n |-> IF X.shape[i] = 1 THEN Y.shape[i] ELSE X.shape[i]]
        N == Size(sh)
        px == [k \in 1..N |-> LET ix == Unravel(k - 1, sh) IN
                  Ravel([i \in 1..n |-> IF X.shape[i] = 1 THEN 0 ELSE ix[i]], X.shape) + 1]
        py == [k \in 1..N |-> LET ix == Unravel(k - 1, sh) IN
                  Ravel([i \in 1..n |-> IF Y.shape[i] = 1 THEN 0 ELSE ix[i]], Y.shape) + 1]
        cx == CJ(X)
        cy == IF f = "pow" THEN Y.vals ELSE CJ(Y)
    IN IF ~compatible THEN Err
       ELSE Ok(Arr(nd, sh, ResNum(f, x, y),
                   [k \in 1..N |-> IF f \in {"eq", "ne"} /\ ResNum("add", x, y) = "gf"
                                   THEN LET same == /\ X.vals[px[k]] % P = Y.vals[py[k]] % P
                                                    /\ cx[px[k]] % P = cy[py[k]] % P
                                        IN B2I(IF f = "eq" THEN same ELSE ~same)
                                   ELSE Op(f, x, y, X.vals[px[k]], Y.vals[py[k]])],
                   IF ~(IsCplx(X) \/ IsCplx(Y)) \/ f \in BoolOps THEN <<>>
                   ELSE [k \in 1..N |-> GfOp(f, cx[px[k]], cy[py[k]])],
                   None, None))
(* numbers carry no dimensions *)
Scalar(num, v, c) == Arr(<<>>, <<>>, num, <<v>>, c, None, None)
(* operator with a number on one side: dimensions keep their order *)
WithScalar(f, x, s, left) ==
    LET o(a, b) == IF left THEN Op(f, s, x, b, a) ELSE Op(f, x, s, a, b)
        cs == CJ(s)[1]
    IN Ok(Arr(x.dims, x.shape, ResNum(f, x, s),
              [k \in 1..Len(x.vals) |-> o(x.vals[k], s.vals[1])],
              IF ~(IsCplx(x) \/ IsCplx(s)) \/ f \in BoolOps THEN <<>>
              ELSE [k \in 1..Len(x.vals) |-> IF left THEN GfOp(f, cs, CJ(x)[k]) ELSE GfOp(f, CJ(x)[k], IF f = "pow" THEN s.vals[1] ELSE cs)],
              None, None))

(* coordinate reading of the same law, used as an invariant: every element of
   the result is f of the operands' elements at that coordinate *)
Proj(ds, ix, x) == [j \in 1..Len(x.dims) |->
      LET i == FirstIdx(ds, LAMBDA d : Answers(x.dims[j], d))
      IN IF x.shape[j] = 1 THEN 0 ELSE ix[i]]
PointwiseLaw(f, x, y, r) ==
    \A k \in 1..Len(r.vals) :
        LET ix == Unravel(k - 1, r.shape)
        IN r.vals[k] = Op(f, x, y, At(x, Proj(r.dims, ix, x)), At(y, Proj(r.dims, ix, y)))

(* ---- elementwise unary ----------------------------------------------------- *)
Half == InvP(2)
Unary(f, x) ==
    LET N == Len(x.vals)
        V == IF x.num = "int" THEN [k \in 1..N |-> CASE f = "neg" -> -x.vals[k]
                                                     [] f = "abs" -> AbsI(x.vals[k])
                                                     [] f = "imag" -> 0
                                                     [] OTHER -> x.vals[k]]
             ELSE [k \in 1..N |-> CASE f = "neg" -> NegP(x.vals[k])
                                    [] f = "conj" -> CJ(x)[k]
                                    [] f = "real" -> MulP(AddP(x.vals[k], CJ(x)[k]), Half)
                                    [] f = "imag" -> MulP(SubP(x.vals[k], CJ(x)[k]), MulP(Half, InvP(ImUnit)))
                                    [] OTHER -> x.vals[k]]
        C == IF x.cj = <<>> \/ f \in {"real", "imag"} THEN <<>>
             ELSE [k \in 1..N |-> CASE f = "neg" -> NegP(x.cj[k])
                                    [] f = "conj" -> x.vals[k]
                                    [] OTHER -> x.cj[k]]
    IN Ok(Arr(x.dims, x.shape, x.num, V, C, x.unit, x.fmt))

(* ---- selection ---------------------------------------------------------------- *)
(* positions selected by a Python slice over n elements; a, b, s are <<>> or <<v>> *)
SliceIdx(n, a, b, s) ==
    LET st == IF s = <<>> THEN 1 ELSE s[1]
        clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
        norm(v) == IF v < 0 THEN v + n ELSE v
        start == IF a = <<>> THEN (IF st > 0 THEN 0 ELSE n - 1)
                 ELSE IF st > 0 THEN clip(norm(a[1]), 0, n) ELSE clip(norm(a[1]), -1, n - 1)
        stop  == IF b = <<>> THEN (IF st > 0 THEN n ELSE -1)
                 ELSE IF st > 0 THEN clip(norm(b[1]), 0, n) ELSE clip(norm(b[1]), -1, n - 1)
        cnt == IF st > 0 THEN (IF stop > start THEN (stop - start + st - 1) \div st ELSE 0)
               ELSE (IF start > stop THEN (start - stop - st - 1) \div (-st) ELSE 0)
    IN [k \in 1..cnt |-> start + (k - 1) * st]
PickData(d, pos) == [d EXCEPT !.data = [k \in 1..Len(pos) |-> d.data[pos[k] + 1]]]

FullItem == [t |-> "slice", a |-> <<>>, b |-> <<>>, s |-> <<>>]
(* index expression -> one item per axis *)
Expand(x, items) ==
    LET e == FirstIdx(items, LAMBDA it : it.t = "ell")
        n == NDim(x)
    IN IF e = 0 THEN items \o Const(n - Len(items), FullItem)
       ELSE Take(items, e - 1) \o Const(n - (Len(items) - 1), FullItem) \o Drop(items, e)
NumEll(items) == Cardinality({i \in 1..Len(items) : items[i].t = "ell"})
Index(x, items0) ==
    IF NumEll(items0) > 1 \/ Len(items0) - NumEll(items0) > NDim(x) THEN Err ELSE
    LET items == Expand(x, items0)
        n == NDim(x)
        bad == \E i \in 1..n :
                 \/ items[i].t = "int" /\ (items[i].i >= x.shape[i] \/ items[i].i < -x.shape[i])
                 \/ items[i].t = "list" /\ \E k \in 1..Len(items[i].l) :
                        items[i].l[k] >= x.shape[i] \/ items[i].l[k] < -x.shape[i]
        pos == [i \in 1..n |->
                  CASE items[i].t = "int" -> <<items[i].i % x.shape[i]>>
                    [] items[i].t = "slice" -> SliceIdx(x.shape[i], items[i].a, items[i].b, items[i].s)
                    [] items[i].t = "list" -> [k \in 1..Len(items[i].l) |-> items[i].l[k] % x.shape[i]]]
        kept == SelectIdx(IotaFrom(1, n), LAMBDA i : items[i].t # "int")
        sh == [k \in 1..Len(kept) |-> Len(pos[kept[k]])]
        ds == [k \in 1..Len(kept) |-> IF items[kept[k]] = FullItem THEN x.dims[kept[k]]
                                      ELSE PickData(x.dims[kept[k]], pos[kept[k]])]
        rank == [i \in 1..n |-> FirstIdx(kept, LAMBDA j : j = i)]
    IN IF bad THEN Err
       ELSE Ok(Gather(x, ds, sh, LAMBDA ix : [i \in 1..n |->
                  IF rank[i] = 0 THEN pos[i][1] ELSE pos[i][ix[rank[i]] + 1]]))

(* boolean labelled mask m: leading dimensions not in the mask stay, then the
   masked ones collapse to one axis, then the rest *)
MaskIndex(x, m, anonname) ==
    LET inm(d) == HasDim(m.dims, d)
        n == NDim(x)
        firstin == FirstIdx(x.dims, LAMBDA d : inm(d))
        lead == Take(IotaFrom(1, n), firstin - 1)
        mid == [k \in 1..Len(m.dims) |-> MatchIdx(x.dims, m.dims[k])]
        rest == SelectIdx(IotaFrom(1, n), LAMBDA i : i >= firstin /\ i \notin Range(mid))
        hits == SelectIdx(IotaFrom(0, Len(m.vals)), LAMBDA k : m.vals[k] # 0)
        cnt == Len(hits)
        newdim == IF Len(m.dims) = 1 THEN PickData(m.dims[1], hits)
                  ELSE Dim("DimAnonymous", anonname, [k \in 1..cnt |-> ToString(k - 1)], None, "%d")
        sh == [k \in 1..Len(lead) |-> x.shape[lead[k]]] \o <<cnt>> \o [k \in 1..Len(rest) |-> x.shape[rest[k]]]
        ds == [k \in 1..Len(lead) |-> x.dims[lead[k]]] \o <<newdim>> \o [k \in 1..Len(rest) |-> x.dims[rest[k]]]
        L == Len(lead)
        src(ix) == LET mi == Unravel(hits[ix[L + 1] + 1], m.shape) IN
                   [i \in 1..n |->
                      IF i \in Range(lead) THEN ix[FirstIdx(lead, LAMBDA j : j = i)]
                      ELSE IF i \in Range(mid) THEN mi[FirstIdx(mid, LAMBDA j : j = i)]
                      ELSE ix[L + 1 + FirstIdx(rest, LAMBDA j : j = i)]]
    IN IF firstin = 0 \/ (\E k \in 1..Len(mid) : mid[k] = 0) \/ (\E k \in 1..Len(mid) : mid[k] # 0 /\ x.shape[mid[k]] # m.shape[k])
       THEN Err ELSE Ok(Gather(x, ds, sh, src))
TakeAxis(x, ax, l) ==
    LET items == [i \in 1..NDim(x) |-> IF i = ax THEN [t |-> "list", l |-> l] ELSE FullItem] IN Index(x, items)

(* ---- rearrangement ------------------------------------------------------------ *)
Transposed(x, perm) ==   \* perm: 1-based axis numbers
    LET n == NDim(x) IN
    Gather(x, Permute(x.dims, perm), Permute(x.shape, perm),
           LAMBDA ix : [i \in 1..n |-> ix[FirstIdx(perm, LAMBDA j : j = i)]])
ReorderPerm(x, front) == front \o SelectIdx(IotaFrom(1, NDim(x)), LAMBDA i : i \notin Range(front))
MatTranspose(x) ==
    LET i == FirstIdx(x.dims, LAMBDA d : IsKind(d.cls, "DimMatrix_i"))
        j == FirstIdx(x.dims, LAMBDA d : IsKind(d.cls, "DimMatrix_j"))
    IN IF i = 0 \/ j = 0 THEN x
       ELSE LET perm == [k \in 1..NDim(x) |-> IF k = i THEN j ELSE IF k = j THEN i ELSE k]
                y == Transposed(x, perm)
                di == [x.dims[i] EXCEPT !.data = x.dims[j].data]
                dj == [x.dims[j] EXCEPT !.data = x.dims[i].data]
            IN [y EXCEPT !.dims = [k \in 1..NDim(x) |-> IF k = i THEN di ELSE IF k = j THEN dj ELSE @[k]]]
DropAxes(x, axes) ==    \* axes: set of axis numbers, all of length one
    LET kept == SelectIdx(IotaFrom(1, NDim(x)), LAMBDA i : i \notin axes)
    IN Gather(x, Permute(x.dims, kept), [k \in 1..Len(kept) |-> x.shape[kept[k]]],
              LAMBDA ix : [i \in 1..NDim(x) |-> IF i \in axes THEN 0 ELSE ix[FirstIdx(kept, LAMBDA j : j = i)]])
AddDim(x, d, axis) ==
    IF HasDim(x.dims, d) THEN x
    ELSE LET p == Min2(axis, NDim(x)) + 1
         IN Gather(x, InsertBefore(x.dims, p, d), InsertBefore(x.shape, p, Len(d.data)),
                   LAMBDA ix : RemoveAt(ix, p))
ReplaceByName(ds, old, new) == [i \in 1..Len(ds) |-> IF ds[i].name = old THEN new ELSE ds[i]]
ExpandDiag(x, ax) ==     \* ax: axis number
    LET d == x.dims[ax]
        ds == Take(x.dims, ax - 1) \o <<Kind(d, IndepOf(d.cls)), Kind(d, DerivOf(d.cls))>> \o Drop(x.dims, ax)
        sh == Take(x.shape, ax - 1) \o <<x.shape[ax], x.shape[ax]>> \o Drop(x.shape, ax)
        N == Size(sh)
        v(s) == [k \in 1..N |-> LET ix == Unravel(k - 1, sh) IN
                   IF ix[ax] = ix[ax + 1] THEN s[Ravel(RemoveAt(ix, ax + 1), x.shape) + 1] ELSE 0]
    IN Arr(ds, sh, x.num, v(x.vals), IF x.cj = <<>> THEN <<>> ELSE v(x.cj), x.unit, x.fmt)
RECURSIVE ExpandAll(_, _)
ExpandAll(x, k) ==
    IF k > NDim(x) THEN x
    ELSE IF IsKind(x.dims[k].cls, "_DiagAxis") THEN ExpandAll(ExpandDiag(x, k), k + 2)
    ELSE ExpandAll(x, k + 1)
CplxDims == << Dim("ComplexIndepAxis", "cplx", <<"0", "1">>, None, "%d"),
               Dim("ComplexDerivAxis", "cplx", <<"0", "1">>, None, "%d") >>
FullComplex(x) ==
    IF \E i \in 1..Len(x.dims) : x.dims[i].cls \in {"ComplexDerivAxis", "ComplexIndepAxis", "ComplexDiagAxis"} THEN x ELSE
    LET sh == x.shape \o <<2, 2>>
        re == Unary("real", x).val.vals
        im == Unary("imag", x).val.vals
        cplx == IsCplx(x)
        v == [k \in 1..Size(sh) |->
                LET q == (k - 1) \div 4 + 1 r == (k - 1) % 4 IN
                CASE r = 0 -> re[q]
                  [] r = 3 -> IF cplx THEN re[q] ELSE 0
                  [] r = 1 -> IF cplx THEN NegP(im[q]) ELSE 0
                  [] r = 2 -> IF cplx THEN im[q] ELSE 0]
    IN Arr(x.dims \o CplxDims, sh, x.num, v, <<>>, x.unit, x.fmt)
IsMatrix(x) == /\ \E i \in 1..Len(x.dims) : IsKind(x.dims[i].cls, "DimMatrix_i")
               /\ \E i \in 1..Len(x.dims) : IsKind(x.dims[i].cls, "DimMatrix_j")
(* matrix axes, if any, trail (what remove_tail is defined for) *)
TrailingMatrix(x) == ~IsMatrix(x) \/ (NDim(x) >= 3 /\ IsKind(x.dims[NDim(x) - 1].cls, "DimMatrix_i") /\ IsKind(x.dims[NDim(x)].cls, "DimMatrix_j"))
IotaLabels(n) == [k \in 1..n |-> ToString(k - 1)]
RemoveTail(x) ==
    LET n == NDim(x)
        mat == IsMatrix(x)
        last == IF mat THEN n - 2 ELSE n
        tail == IF last < 2 THEN 1 ELSE ProdSeq(SubSeq(x.shape, 2, last))
        end == Drop(x.shape, last)
    IN Arr(<<x.dims[1], Dim("DimRep", "Tail", IotaLabels(tail), None, "%d")>> \o Drop(x.dims, last),
           <<x.shape[1], tail>> \o end, x.num, x.vals, x.cj, x.unit, x.fmt)
RemoveRep(x, newname) ==
    LET reps == SelectIdx(IotaFrom(1, NDim(x)), LAMBDA i : IsKind(x.dims[i].cls, "DimRep")) IN
    IF reps = <<>> THEN x ELSE
    LET f == reps[1]
        perm == IotaFrom(1, f - 1) \o reps \o SelectIdx(IotaFrom(1, NDim(x)), LAMBDA i : i > f /\ i \notin Range(reps))
        y == Transposed(x, perm)
        m == Len(reps)
        rs == ProdSeq(SubSeq(y.shape, f, f + m - 1))
    IN Arr(Take(y.dims, f - 1) \o <<Dim("DimRep", newname, IotaLabels(rs), None, "%d")>> \o Drop(y.dims, f + m - 1),
           Take(y.shape, f - 1) \o <<rs>> \o Drop(y.shape, f + m - 1), y.num, y.vals, y.cj, y.unit, y.fmt)

(* ---- reductions ------------------------------------------------------------------ *)
(* axis items: [t: "idx", i], [t: "name", n], [t: "cls", c], [t: "dim", d]  *)
ItemAxes(x, it) ==
    CASE it.t = "idx" -> IF it.i >= NDim(x) \/ it.i < -NDim(x) THEN {0} ELSE {(it.i % NDim(x)) + 1}
      [] it.t = "name" -> {NameIdx(x.dims, it.n)}
      [] it.t = "cls" -> {i \in 1..NDim(x) : IsKind(x.dims[i].cls, it.c)}
      [] it.t = "dim" -> {MatchIdx(x.dims, it.d)}
AxesOf(x, ax) == IF ax.t = "none" THEN 1..NDim(x)
                 ELSE UNION {ItemAxes(x, ax.items[k]) : k \in 1..Len(ax.items)}
RECURSIVE FoldMin(_), FoldMax(_)
FoldMin(s) == IF Len(s) = 1 THEN s[1] ELSE Min2(Head(s), FoldMin(Tail(s)))
FoldMax(s) == IF Len(s) = 1 THEN s[1] ELSE Max2(Head(s), FoldMax(Tail(s)))
(* value of reduction f over the group (vals g, conjugates c); std and rss are
   given squared *)
ReduceGroup(f, num, g, c, ddof) ==
    LET n == Len(g)
        sum == IF num = "int" THEN SumSeq(g) ELSE SumP(g)
        mean == DivP(SumP(g), n)
        cmean == DivP(SumP(c), n)
    IN CASE f = "sum" -> sum
         [] f = "mean" -> mean
         [] f = "min" -> FoldMin(g)
         [] f = "max" -> FoldMax(g)
         [] f \in {"var", "std"} ->
              DivP(SumP([k \in 1..n |-> MulP(SubP(g[k], mean), SubP(c[k], cmean))]), n - ddof)
         [] f = "rss" -> SumP([k \in 1..n |-> MulP(g[k], c[k])])
Reduce(f, x, ax, keepdims, dimerror, ddof) ==
    LET axes == AxesOf(x, ax) IN
    IF 0 \in axes THEN (IF dimerror THEN Err ELSE Ok(x)) ELSE
    LET n == NDim(x)
        sh1 == [i \in 1..n |-> IF i \in axes THEN 1 ELSE x.shape[i]]
        inner == [i \in 1..n |-> IF i \in axes THEN x.shape[i] ELSE 1]
        N == Size(sh1)
        M == Size(inner)
        cj == CJ(x)
        at(k, m) == LET o == Unravel(k - 1, sh1) q == Unravel(m - 1, inner)
                    IN Ravel([i \in 1..n |-> o[i] + q[i]], x.shape) + 1
        num == IF f \in {"sum", "min", "max"} THEN x.num ELSE "gf"
        v == [k \in 1..N |-> ReduceGroup(f, x.num, [m \in 1..M |-> x.vals[at(k, m)]], [m \in 1..M |-> cj[at(k, m)]], ddof)]
        c == IF x.cj = <<>> \/ f \in {"var", "std", "rss"} THEN <<>>
             ELSE [k \in 1..N |-> ReduceGroup(f, x.num, [m \in 1..M |-> cj[at(k, m)]], [m \in 1..M |-> x.vals[at(k, m)]], ddof)]
        full == Arr(x.dims, sh1, num, v, c, None, None)
    IN IF f \in {"min", "max"} /\ M = 0 THEN Err
       ELSE Ok(IF keepdims THEN full ELSE DropAxes(full, axes))
Cumulative(f, x, axes) ==
    IF Cardinality(axes) # 1 \/ 0 \in axes THEN Err ELSE
    LET a == CHOOSE i \in axes : TRUE
        run(s, num) == [k \in 1..Len(s) |->
                    LET ix == Unravel(k - 1, x.shape)
                        part == [m \in 1..(ix[a] + 1) |-> s[Ravel([ix EXCEPT ![a] = m - 1], x.shape) + 1]]
                    IN IF f = "cumsum" THEN (IF num = "int" THEN SumSeq(part) ELSE SumP(part))
                       ELSE IF num = "int" THEN ProdSeq(part)
                       ELSE LET RECURSIVE pr(_) pr(q) == IF q = <<>> THEN 1 ELSE MulP(Head(q), pr(Tail(q))) IN pr(part)]
    IN Ok(Arr(x.dims, x.shape, x.num, run(x.vals, x.num), IF x.cj = <<>> THEN <<>> ELSE run(x.cj, "gf"), None, None))

(* ---- comparing a specified array with an observed one ------------------------ *)
SameVals(e, o) ==
    /\ Len(e.vals) = Len(o.vals)
    /\ IF e.num = "int" /\ o.num = "int" THEN e.vals = o.vals
       ELSE \A k \in 1..Len(e.vals) : (o.num = "int" \/ o.vals[k] # -1) /\ e.vals[k] % P = o.vals[k] % P
    /\ \A k \in 1..Len(CJ(e)) : CJ(e)[k] % P = CJ(o)[k] % P
SameDims(e, o) == /\ Len(e) = Len(o)
                  /\ \A i \in 1..Len(e) : e[i].cls = o[i].cls /\ e[i].name = o[i].name
                                          /\ e[i].data = o[i].data /\ e[i].unit = o[i].unit
=============================================================================
