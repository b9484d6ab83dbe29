------------------------------- MODULE Blocks -------------------------------
(* Data blocks: an ordered collection of named arrays (vars) and the          *)
(* registered dimensions (ivars).  blocks maps names to blocks; every public  *)
(* operation is one step.                                                     *)
(*   block = [vars : Seq([n, a]), ivars : Seq([n, d])]                        *)
EXTENDS ArraySpec
VARIABLE blocks

VarIdx(b, n) == FirstIdx(b.vars, LAMBDA v : v.n = n)
IvarIdx(b, n) == FirstIdx(b.ivars, LAMBDA v : v.n = n)
HasVar(b, n) == VarIdx(b, n) # 0
HasIvar(b, n) == IvarIdx(b, n) # 0
Var(b, n) == b.vars[VarIdx(b, n)].a
Ivar(b, n) == b.ivars[IvarIdx(b, n)].d
VarNames(b) == [k \in 1..Len(b.vars) |-> b.vars[k].n]
EmptyBlock == [vars |-> <<>>, ivars |-> <<>>]

RECURSIVE Register(_, _)
Register(iv, ds) == IF ds = <<>> THEN iv
                    ELSE Register(IF FirstIdx(iv, LAMBDA v : v.n = Head(ds).name) # 0 THEN iv ELSE Append(iv, [n |-> Head(ds).name, d |-> Head(ds)]), Tail(ds))
SetVar(b, n, a) ==
    LET k == VarIdx(b, n)
        vs == IF k = 0 THEN Append(b.vars, [n |-> n, a |-> a]) ELSE ReplaceAt(b.vars, k, [n |-> n, a |-> a])
    IN [vars |-> vs, ivars |-> Register(b.ivars, a.dims)]
MapVars(b, F(_, _)) == [k \in 1..Len(b.vars) |-> [n |-> b.vars[k].n, a |-> F(b.vars[k].n, b.vars[k].a)]]
(* block holding exactly the given variables *)
RECURSIVE FromVars(_, _)
FromVars(b, vs) == IF vs = <<>> THEN b ELSE FromVars(SetVar(b, Head(vs).n, Head(vs).a), Tail(vs))

ReplaceDimB(b, old, new) ==
    [vars |-> MapVars(b, LAMBDA n, a : [a EXCEPT !.dims = ReplaceByName(@, old, new)]),
     ivars |-> ReplaceAt(b.ivars, IvarIdx(b, old), [n |-> new.name, d |-> new])]
TrailMat(a) == NDim(a) >= 2 /\ a.dims[NDim(a) - 1].cls = "DimMatrix_i" /\ a.dims[NDim(a)].cls = "DimMatrix_j"
MatElem(a, i, j) == Index(a, <<[t |-> "ell"], [t |-> "int", i |-> i - 1], [t |-> "int", i |-> j - 1]>>)
(* matrix a with element (i, j) replaced by e (over any of the other dimensions, in any order; repeated along those it lacks) *)
PutElem(a, i, j, e) ==
    LET n == NDim(a)
        at(ix) == [q \in 1..NDim(e) |-> IF e.shape[q] = 1 THEN 0 ELSE ix[FirstIdx(a.dims, LAMBDA d : Answers(e.dims[q], d))]]
        put(s, es) == [k \in 1..Len(s) |-> LET ix == Unravel(k - 1, a.shape) IN
                          IF ix[n - 1] = i - 1 /\ ix[n] = j - 1
                          THEN es[Ravel(at(ix), e.shape) + 1] ELSE s[k]]
        cplx == IsCplx(a)
    IN [a EXCEPT !.vals = put(a.vals, e.vals), !.cj = IF cplx THEN put(a.cj, CJ(e)) ELSE <<>>,
                 !.num = IF e.num = "gf" THEN "gf" ELSE @]

(* ---- editing --------------------------------------------------------------- *)
Edit(b, o) ==
    CASE o.op = "setvar" ->
            IF o.mat # None /\ HasVar(b, o.mat) /\ IsMatrix(Var(b, o.mat)) /\ ~IsMatrix(o.arr)
            THEN LET m == Var(b, o.mat) n == NDim(m) IN
                 IF o.i > m.shape[n - 1] \/ o.j > m.shape[n] THEN Err
                 ELSE Ok([b EXCEPT !.vars = ReplaceAt(@, VarIdx(b, o.mat), [n |-> o.mat, a |-> PutElem(m, o.i, o.j, o.arr)])])
            ELSE IF HasIvar(b, o.n)
            THEN IF NDim(o.arr) # 1 THEN Err
                 ELSE LET d == Ivar(b, o.n)
                          nb == ReplaceDimB(b, o.n, [d EXCEPT !.data = o.labels])
                      IN Ok([nb EXCEPT !.ivars = Register(@, o.arr.dims)])
            ELSE Ok(SetVar(b, o.n, o.arr))
      [] o.op = "setdim" -> LET k == IvarIdx(b, o.d.name) IN
            Ok([b EXCEPT !.ivars = IF k = 0 THEN Append(@, [n |-> o.d.name, d |-> o.d]) ELSE ReplaceAt(@, k, [n |-> o.d.name, d |-> o.d])])
      [] o.op = "del" -> Ok(IF HasVar(b, o.n) THEN [b EXCEPT !.vars = RemoveAt(@, VarIdx(b, o.n))] ELSE b)
      [] o.op = "rename" ->
            IF HasIvar(b, o.n) THEN Ok(ReplaceDimB(b, o.n, [Ivar(b, o.n) EXCEPT !.name = o.new]))
            ELSE Ok([b EXCEPT !.vars[VarIdx(b, o.n)].n = o.new])
      [] o.op = "repdim" -> IF ~HasIvar(b, o.old) THEN Err
                            ELSE Ok(ReplaceDimB(b, o.old, IF o.tocls # None THEN Kind(Ivar(b, o.old), o.tocls) ELSE o.d))
      [] o.op = "setfmt" ->
            IF HasVar(b, o.n) THEN Ok([b EXCEPT !.vars[VarIdx(b, o.n)].a.fmt = o.f])
            ELSE IF HasIvar(b, o.n) THEN Ok(ReplaceDimB(b, o.n, [Ivar(b, o.n) EXCEPT !.fmt = o.f]))
            ELSE Err
      [] o.op = "fmtall" ->
            LET fmtdim(d) == IF HasIvar(b, d.name) THEN [Ivar(b, d.name) EXCEPT !.fmt = o.f] ELSE d IN
            Ok([vars |-> MapVars(b, LAMBDA n, a : [a EXCEPT !.fmt = o.f, !.dims = [k \in 1..Len(@) |-> fmtdim(@[k])]]),
                ivars |-> [k \in 1..Len(b.ivars) |-> [b.ivars[k] EXCEPT !.d.fmt = o.f]]])
      [] o.op = "setunit" -> Ok([b EXCEPT !.vars[VarIdx(b, o.n)].a.unit = o.u])
Edits == {"setvar", "setdim", "del", "rename", "repdim", "setfmt", "fmtall", "setunit"}

(* ---- transformations -------------------------------------------------------- *)
HasName(a, n) == NameIdx(a.dims, n) # 0
Along(a, n, pos) == TakeAxis(a, NameIdx(a.dims, n), pos).val     \* positions along the dimension named n
Squeezed(a) == DropAxes(a, {i \in 1..NDim(a) : a.shape[i] = 1})
MemberPos(d, want) == SelectIdx(IotaFrom(0, Len(d.data)), LAMBDA k : d.data[k] \in Range(want))

RepDims(b) == LET ds == [k \in 1..Len(b.ivars) |-> b.ivars[k].d] IN SelectIdx(ds, LAMBDA k : IsKind(ds[k].cls, "DimRep"))
RECURSIVE AddAll(_, _, _)
AddAll(a, ds, at) == IF ds = <<>> THEN a ELSE AddAll(AddDim(a, Head(ds), at), Tail(ds), at)
CollapseReps(a, reps, newname) ==
    LET first == FirstIdx(a.dims, LAMBDA d : IsKind(d.cls, "DimRep")) IN
    IF first = 0 THEN a ELSE
    LET full == AddAll(a, reps, first - 1)
        lead == [k \in 1..(first - 1) |-> k]
        ord == [k \in 1..Len(reps) |-> NameIdx(full.dims, reps[k].name)]
    IN RemoveRep(Transposed(full, ReorderPerm(full, lead \o ord)), newname)
RepVars(b, o) ==
    LET reps == RepDims(b)
        sh == [k \in 1..Len(reps) |-> Len(reps[k].data)]
        N == Size(sh)
        nd == Dim("DimRep", o.newname, IotaLabels(N), None, "%d")
    IN [k \in 1..Len(reps) |-> [n |-> reps[k].name,
          a |-> Arr(<<nd>>, <<N>>, "int", [q \in 1..N |-> o.repdata[k][Unravel(q - 1, sh)[k] + 1]], <<>>, None, "%d")]]

RECURSIVE Uniq(_, _)
Uniq(s, acc) == IF s = <<>> THEN acc ELSE Uniq(Tail(s), IF Head(s) \in Range(acc) THEN acc ELSE Append(acc, Head(s)))
HyperB(b, o) ==
    LET iv == [k \in 1..Len(o.dimnames) |-> Var(b, o.dimnames[k]).vals]
        labs == [k \in 1..Len(iv) |-> Uniq(iv[k], <<>>)]
        sh == [k \in 1..Len(labs) |-> Len(labs[k])]
        N == Size(sh)
        n == Len(iv[1])
        at(g) == {p \in 1..n : \A k \in 1..Len(iv) : iv[k][p] = labs[k][g[k] + 1]}
        complete == \A q \in 1..N : Cardinality(at(Unravel(q - 1, sh))) = 1
        pos == [q \in 1..N |-> CHOOSE p \in at(Unravel(q - 1, sh)) : TRUE]
        nm(k) == IF o.indexed THEN o.dimnames[k] \o "_index" ELSE o.dimnames[k]
        nds == [k \in 1..Len(iv) |-> Dim("DimSweep", nm(k), [m \in 1..Len(labs[k]) |-> ToString(labs[k][m])], Var(b, o.dimnames[k]).unit, "%d")]
        grid(a) == LET ax == NameIdx(a.dims, o.rdim)
                       nsh == Take(a.shape, ax - 1) \o sh \o Drop(a.shape, ax)
                       K == Len(sh)
                   IN Gather(a, Take(a.dims, ax - 1) \o nds \o Drop(a.dims, ax), nsh,
                             LAMBDA ix : Take(ix, ax - 1) \o <<pos[Ravel(SubSeq(ix, ax, ax + K - 1), sh) + 1] - 1>> \o Drop(ix, ax + K - 1))
        keep(v) == IF HasName(v.a, o.rdim) THEN o.indexed \/ v.n \notin Range(o.dimnames) ELSE o.all
        kept == SelectIdx(b.vars, LAMBDA k : keep(b.vars[k]))
    IN IF ~complete \/ N # n THEN Err
       ELSE Ok(FromVars([vars |-> <<>>, ivars |-> [k \in 1..Len(nds) |-> [n |-> nds[k].name, d |-> nds[k]]]],
                        [k \in 1..Len(kept) |-> [n |-> kept[k].n, a |-> IF HasName(kept[k].a, o.rdim) THEN grid(kept[k].a) ELSE kept[k].a]]))

(* piecewise linear interpolation over integer coordinates, exact in GF(P) *)
LinAt(x, oldx, ax, newx, s) ==
    LET nsh == ReplaceAt(x.shape, ax, Len(newx))
        seg(t) == MaxOf({k \in 1..(Len(oldx) - 1) : oldx[k] <= t})
        f(q) == LET ix == Unravel(q - 1, nsh)
                    t == newx[ix[ax] + 1]
                    k == IF t = oldx[Len(oldx)] THEN Len(oldx) - 1 ELSE seg(t)
                    lo == s[Ravel([ix EXCEPT ![ax] = k - 1], x.shape) + 1]
                    hi == s[Ravel([ix EXCEPT ![ax] = k], x.shape) + 1]
                IN AddP(lo, MulP(SubP(hi, lo), DivP(t - oldx[k], oldx[k + 1] - oldx[k])))
    IN [q \in 1..Size(nsh) |-> f(q)]
InterpVar(a, o) ==
    IF ~HasDim(a.dims, o.d) THEN a
    ELSE LET ax == MatchIdx(a.dims, o.d) IN
         IF o.mode = "none"
         THEN LET y == TakeAxis(a, ax, [k \in 1..Len(o.d.data) |-> FirstIdx(a.dims[ax].data, LAMBDA l : l = o.d.data[k]) - 1]).val
              IN [y EXCEPT !.dims = ReplaceAt(@, ax, o.d)]
         ELSE Arr(ReplaceAt(a.dims, ax, o.d), ReplaceAt(a.shape, ax, Len(o.d.data)), "gf", LinAt(a, o.oldx, ax, o.newx, a.vals),
                  IF IsCplx(a) THEN LinAt(a, o.oldx, ax, o.newx, a.cj) ELSE <<>>, a.unit, a.fmt)
InterpRefused(b, o) ==
    \E k \in 1..Len(b.vars) : LET a == b.vars[k].a IN HasDim(a.dims, o.d) /\
        IF o.mode = "none" THEN ~(Range(o.d.data) \subseteq Range(a.dims[MatchIdx(a.dims, o.d)].data))
        ELSE \E q \in 1..Len(o.newx) : o.newx[q] < o.oldx[1] \/ o.newx[q] > o.oldx[Len(o.oldx)]

ElemVar(v, row, col) == [n |-> v.n \o ToString(row) \o ToString(col), a |-> MatElem(v.a, row, col).val]
ElemList(v) ==
    LET rows == v.a.shape[NDim(v.a) - 1]
        cols == v.a.shape[NDim(v.a)]
    IN [q \in 1..(rows * cols) |-> ElemVar(v, ((q - 1) \div cols) + 1, ((q - 1) % cols) + 1)]
RECURSIVE ElementVars(_, _)
ElementVars(vs, acc) ==
    IF vs = <<>> THEN acc
    ELSE ElementVars(Tail(vs), IF IsMatrix(Head(vs).a) THEN acc \o ElemList(Head(vs)) ELSE Append(acc, Head(vs)))

Transform(b, o) ==
    CASE o.op \in {"copy", "view"} -> Ok(b)
      [] o.op = "keep" -> LET known == SelectIdx(o.names, LAMBDA k : HasVar(b, o.names[k])) IN
            Ok(FromVars(EmptyBlock, [k \in 1..Len(known) |-> [n |-> known[k], a |-> Var(b, known[k])]]))
      [] o.op = "filter" -> LET pos == IF o.mode = "mask" THEN SelectIdx(IotaFrom(0, Len(o.m)), LAMBDA k : o.m[k])
                                       ELSE MemberPos(Ivar(b, o.dim), o.want) IN
            Ok(FromVars(EmptyBlock, MapVars(b, LAMBDA n, a : IF HasName(a, o.dim) THEN Along(a, o.dim, pos) ELSE a)))
      [] o.op = "filterother" -> Ok(b)          \* dimension not in the block: nothing selected away
      [] o.op = "sort" -> LET pos == [k \in 1..Len(o.keys) |-> StableOrder(o.keys)[k] - 1] IN
            Ok(FromVars(EmptyBlock, MapVars(b, LAMBDA n, a : IF HasName(a, o.dim) THEN Along(a, o.dim, pos) ELSE a)))
      [] o.op = "squeeze" -> Ok(FromVars([vars |-> <<>>, ivars |-> b.ivars], MapVars(b, LAMBDA n, a : Squeezed(a))))
      [] o.op = "norep" -> LET reps == RepDims(b) IN
            Ok(FromVars(FromVars(EmptyBlock, RepVars(b, o)), MapVars(b, LAMBDA n, a : CollapseReps(a, reps, o.newname))))
      [] o.op = "hyper" -> HyperB(b, o)
      [] o.op = "elements" -> Ok(FromVars(EmptyBlock, ElementVars(b.vars, <<>>)))
      [] o.op = "interp" -> IF InterpRefused(b, o) THEN Err ELSE Ok(FromVars(EmptyBlock, MapVars(b, LAMBDA n, a : InterpVar(a, o))))
Transforms == {"copy", "view", "keep", "filter", "filterother", "sort", "squeeze", "norep", "hyper", "elements", "interp"}
Reads == {"get", "contains"}

(* the numbers the driver supplied next to labels are those labels *)
KeysFit(b, o) ==
    CASE o.op = "sort" /\ o.by = "dim" -> Ivar(b, o.dim).data = [k \in 1..Len(o.keys) |-> ToString(o.keys[k])]
      [] o.op = "norep" -> \A k \in 1..Len(o.repdata) : RepDims(b)[k].data = [q \in 1..Len(o.repdata[k]) |-> ToString(o.repdata[k][q])]
      [] o.op = "interp" /\ o.mode = "linear" -> /\ o.d.data = [k \in 1..Len(o.newx) |-> ToString(o.newx[k])]
                                                 /\ HasIvar(b, o.d.name) => Ivar(b, o.d.name).data = [k \in 1..Len(o.oldx) |-> ToString(o.oldx[k])]
      [] OTHER -> TRUE

BlockMeaning(bs, o) ==
    CASE o.op = "newblock" -> Ok(EmptyBlock)
      [] o.op \in Edits -> Edit(bs[o.b], o)
      [] o.op \in Transforms -> Transform(bs[o.b], o)
      [] o.op \in Reads -> Ok(bs[o.b])

(* reading a name *)
ReadOf(b, o) ==
    IF HasIvar(b, o.n) THEN [st |-> "dim", val |-> Ivar(b, o.n)]
    ELSE IF HasVar(b, o.n) THEN Ok(Var(b, o.n))
    ELSE IF o.mat # None /\ HasVar(b, o.mat) /\ IsMatrix(Var(b, o.mat)) THEN MatElem(Var(b, o.mat), o.i, o.j)
    ELSE Err

(* ---- invariants of every reachable block ------------------------------------- *)
Coherent(b) ==
    /\ \A k, m \in 1..Len(b.vars) : b.vars[k].n = b.vars[m].n => k = m
    /\ \A k, m \in 1..Len(b.ivars) : b.ivars[k].n = b.ivars[m].n => k = m
    /\ \A k \in 1..Len(b.vars) : WellShaped(b.vars[k].a)
    /\ \A k \in 1..Len(b.vars) : \A q \in 1..NDim(b.vars[k].a) : HasIvar(b, b.vars[k].a.dims[q].name)
=============================================================================
