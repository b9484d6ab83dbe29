------------------------------- MODULE Merge --------------------------------
(* Merging blocks.  A block additionally has a name and a list of comments;   *)
(* its per-block parameters are registered dimensions of kind DimPartial (one *)
(* value each).  Array values are labels (num = "lab") or numbers.            *)
EXTENDS Blocks

PartIdx(b) == SelectIdx(IotaFrom(1, Len(b.ivars)), LAMBDA k : b.ivars[k].d.cls = "DimPartial")
Parts(b) == [k \in 1..Len(PartIdx(b)) |-> b.ivars[PartIdx(b)[k]].n]
PartDim(b, n) == b.ivars[IvarIdx(b, n)].d
(* parameter groups in order of first appearance, whatever order a block lists its parameters in *)
SameParts(g, h) == Len(g) = Len(h) /\ Range(g) = Range(h)
RECURSIVE UniqParts(_, _)
UniqParts(s, acc) == IF s = <<>> THEN acc
                     ELSE UniqParts(Tail(s), IF \E k \in 1..Len(acc) : SameParts(acc[k], Head(s)) THEN acc ELSE Append(acc, Head(s)))
GroupsOf(ins) == UniqParts([k \in 1..Len(ins) |-> Parts(ins[k])], <<>>)
Members(ins, g) == SelectIdx(IotaFrom(1, Len(ins)), LAMBDA k : SameParts(Parts(ins[k]), g))
AllVarNames(ins) == Uniq(FlattenSeq([k \in 1..Len(ins) |-> VarNames(ins[k])]), <<>>)
Holders(ins, n) == SelectIdx(IotaFrom(1, Len(ins)), LAMBDA k : HasVar(ins[k], n))

IndexDim(gi, N) == Dim("DimSweep", "INDEX" \o ToString(gi), [k \in 1..N |-> ToString(k - 1)], None, "%d")
ParamVars(ins, gs) ==
    FlattenSeq([gi \in 1..Len(gs) |->
        LET mem == Members(ins, gs[gi]) IN
        [p \in 1..Len(gs[gi]) |->
            [n |-> gs[gi][p],
             a |-> Arr(<<IndexDim(gi, Len(mem))>>, <<Len(mem)>>, "lab",
                       [k \in 1..Len(mem) |-> PartDim(ins[mem[k]], gs[gi][p]).data[1]], <<>>, PartDim(ins[mem[1]], gs[gi][p]).unit, "%d")]]])
(* the arrays, lined up by dimension name, one after the other along a new leading dimension *)
LinedUp(a, proto) == Transposed(a, [k \in 1..NDim(a) |-> NameIdx(a.dims, proto.dims[k].name)])
Stack(as, d) ==
    LET p == as[1]
        l == [k \in 1..Len(as) |-> LinedUp(as[k], p)]
        cat(F(_)) == FlattenSeq([k \in 1..Len(l) |-> F(l[k])])
        cplx == \E k \in 1..Len(l) : IsCplx(l[k])
        stacked == Arr(<<d>> \o p.dims, <<Len(as)>> \o p.shape, IF p.num = "lab" THEN "lab" ELSE "gf",
                       cat(LAMBDA x : x.vals), IF cplx THEN cat(LAMBDA x : CJ(x)) ELSE <<>>, p.unit, p.fmt)
    IN IF NDim(p) > 0 /\ IsKind(p.dims[1].cls, "DimSweep")
       THEN Transposed(stacked, <<2, 1>> \o [k \in 1..(NDim(p) - 1) |-> k + 2]) ELSE stacked
SameLayout(as) == \A k \in 1..Len(as) : /\ NDim(as[k]) = NDim(as[1])
                                        /\ \A q \in 1..NDim(as[1]) : LET m == NameIdx(as[k].dims, as[1].dims[q].name) IN m # 0 /\ as[k].shape[m] = as[1].shape[q]
MergeFlat(ins) ==
    LET gs == GroupsOf(ins)
        names == AllVarNames(ins)
        gi(n) == FirstIdx(gs, LAMBDA g : SameParts(g, Parts(ins[Holders(ins, n)[1]])))
        held(n) == [k \in 1..Len(Holders(ins, n)) |-> Var(ins[Holders(ins, n)[k]], n)]
        \* kept as it is: found in one block only, which has no parameters or holds just one value of it
        kept(n) == Len(Holders(ins, n)) = 1 /\ (Parts(ins[Holders(ins, n)[1]]) = <<>> \/ NDim(held(n)[1]) = 0)
        fits(n) == kept(n) \/ (Holders(ins, n) = Members(ins, gs[gi(n)]) /\ gs[gi(n)] # <<>> /\ SameLayout(held(n)))
        pv == ParamVars(ins, gs)
        base == FromVars(EmptyBlock, pv)
    IN IF \E k \in 1..Len(names) : ~fits(names[k]) THEN Err
       ELSE Ok(FromVars(base, [k \in 1..Len(names) |-> [n |-> names[k], a |-> IF kept(names[k]) THEN held(names[k])[1] ELSE Stack(held(names[k]), IndexDim(gi(names[k]), Len(held(names[k]))))]]))

(* the index dimension replaced by the grid of the parameter values, in order of first appearance *)
GridOf(b, names, rdim) ==
    LET iv == [k \in 1..Len(names) |-> Var(b, names[k]).vals]
        labs == [k \in 1..Len(iv) |-> Uniq(iv[k], <<>>)]
        sh == [k \in 1..Len(labs) |-> Len(labs[k])]
        N == Size(sh)
        at(g) == {p \in 1..Len(iv[1]) : \A k \in 1..Len(iv) : iv[k][p] = labs[k][g[k] + 1]}
        complete == N = Len(iv[1]) /\ \A q \in 1..N : Cardinality(at(Unravel(q - 1, sh))) = 1
        pos == [q \in 1..N |-> CHOOSE p \in at(Unravel(q - 1, sh)) : TRUE]
        nds == [k \in 1..Len(iv) |-> Dim("DimSweep", names[k], labs[k], Var(b, names[k]).unit, "%d")]
        K == Len(sh)
        grid(a) == LET ax == NameIdx(a.dims, rdim) IN
                   Gather(a, Take(a.dims, ax - 1) \o nds \o Drop(a.dims, ax), Take(a.shape, ax - 1) \o sh \o Drop(a.shape, ax),
                          LAMBDA ix : Take(ix, ax - 1) \o <<pos[Ravel(SubSeq(ix, ax, ax + K - 1), sh) + 1] - 1>> \o Drop(ix, ax + K - 1))
        kept == SelectIdx(b.vars, LAMBDA k : b.vars[k].n \notin Range(names))
    IN IF ~complete THEN Err
       ELSE Ok(FromVars([vars |-> <<>>, ivars |-> [k \in 1..K |-> [n |-> names[k], d |-> nds[k]]]],
                        [k \in 1..Len(kept) |-> [n |-> kept[k].n, a |-> IF HasName(kept[k].a, rdim) THEN grid(kept[k].a) ELSE kept[k].a]]))
RECURSIVE GridAll(_, _, _)
GridAll(b, gs, gi) == IF gi > Len(gs) THEN Ok(b)
                      ELSE IF gs[gi] = <<>> THEN GridAll(b, gs, gi + 1)
                      ELSE LET r == GridOf(b, gs[gi], "INDEX" \o ToString(gi)) IN IF r.st = "err" THEN r ELSE GridAll(r.val, gs, gi + 1)
SqueezeAll(b) == [vars |-> MapVars(b, LAMBDA n, a : Squeezed(a)), ivars |-> b.ivars]
(* registered dimensions the inputs had and that no variable of the result is named after *)
CarriedDims(ins, b) == {n \in UNION {{ins[k].ivars[q].n : q \in 1..Len(ins[k].ivars)} : k \in 1..Len(ins)} : ~HasVar(b, n)}
MergeB(ins, hyper) ==
    LET f == MergeFlat(ins) IN
    IF f.st = "err" THEN f
    ELSE LET g == IF hyper THEN GridAll(f.val, GroupsOf(ins), 1) ELSE f IN
         IF g.st = "err" THEN g ELSE Ok(SqueezeAll(g.val))
MergedComments(ins) == FlattenSeq([k \in 1..Len(ins) |-> ins[k].cmt])

(* ---- definition-independent law: every input value is found under its own parameters ---- *)
(* value of merged variable n for block k at that block's index ix (over the block's own dims) *)
FoundIn(out, n, a, ix, coord) ==     \* coord: name -> label of everything known about this point
    LET m == Var(out, n)
        hit(q) == LET jx == Unravel(q - 1, m.shape) IN
                  \A d \in 1..NDim(m) : m.dims[d].name \in DOMAIN coord /\ m.dims[d].data[jx[d] + 1] = coord[m.dims[d].name]
        hits == {q \in 1..Size(m.shape) : hit(q)}
    IN Cardinality(hits) = 1 /\ m.vals[CHOOSE q \in hits : TRUE] = a.vals[Ravel(ix, a.shape) + 1]
=============================================================================
