--------------------------------- MODULE Sp ---------------------------------
(* Tab-separated SP tables.  A file is a sequence of lines with a tag t:     *)
(*   "c" x, p, at   comment (p: none or one property; at: a parameter, '@')  *)
(*   "h" names      column names              "d" cells  one row             *)
(* cells are [k |-> "n", v |-> number] or [k |-> "t"/"d", v |-> text].       *)
(* Blocks of one file are put together as specified by Merge.                *)
EXTENDS Columns
M == INSTANCE Merge WITH heap <- <<>>, blocks <- <<>>
Tag(f, p) == IF p <= Len(f) THEN f[p].t ELSE "end"
RECURSIVE Past(_, _, _)
Past(f, p, t) == IF Tag(f, p) = t THEN Past(f, p + 1, t) ELSE p
(* comments, header, rows; again and again *)
RECURSIVE Tables(_, _, _)
Tables(f, p, acc) ==
    IF p > Len(f) THEN [ok |-> acc # <<>>, l |-> acc]
    ELSE LET h == Past(f, p, "c") q == Past(f, h + 1, "d") IN
         IF Tag(f, h) # "h" \/ q = h + 1 \/ \E k \in (h + 1)..(q - 1) : Len(f[k].cells) # Len(f[h].names) THEN [ok |-> FALSE, l |-> <<>>]
         ELSE Tables(f, q, Append(acc, [cs |-> SubSeq(f, p, h - 1), names |-> f[h].names, rows |-> [k \in 1..(q - h - 1) |-> f[h + k].cells]]))

(* one table: the first column is the sweep, columns with the same name are repetitions *)
Where(names, t) == SelectIdx(IotaFrom(1, Len(names)), LAMBDA k : TextOf(names[k]) = t)
ColumnOf(tb, t) ==
    LET at == Where(tb.names, t) K == Len(at) N == Len(tb.rows)
        cell(q) == tb.rows[((q - 1) \div K) + 1][at[((q - 1) % K) + 1]]
        kind == tb.rows[1][at[1]].k
        raws == [q \in 1..(N * K) |-> cell(q).v]
    IN [nm |-> tb.names[at[1]], kind |-> kind, sc |-> FALSE, unit |-> NoUnit, raws |-> raws,
        dims |-> IF K = 1 THEN <<>> ELSE <<FDim("DimRep", "rep", [k \in 1..K |-> RealText(k - 1)], NoUnit)>>,
        vals |-> IF kind = "n" THEN [q \in 1..(N * K) |-> <<V(raws[q]), 0>>] ELSE raws]
TableBlock(tb) ==
    LET ts == M!Uniq([k \in 1..Len(tb.names) |-> TextOf(tb.names[k])], <<>>)
        cs == [k \in 1..Len(ts) |-> ColumnOf(tb, ts[k])]
        x == cs[1]
    IN [xs |-> <<[nm |-> x.nm, num |-> x.kind = "n", vals |-> x.vals, unit |-> NoUnit]>>, cols |-> Tail(cs)]
PropsOf(cs, at) == FlattenSeq([k \in 1..Len(cs) |-> IF cs[k].at = at THEN cs[k].p ELSE <<>>])
(* a parameter is one value *)
Part(c, guess) == LET p == Property(c) IN [n |-> c.n, kind |-> p.kind, d |-> FDim("DimPartial", c.n, <<p.val>>, IF guess THEN GuessU(p.unit, c.n) ELSE p.unit)]
SpBlock(tb, flags) ==
    LET r == Interpreted(TableBlock(tb), flags, {FALSE}, IF flags.prop THEN PropCols(PropsOf(tb.cs, FALSE)) ELSE <<>>)
        ps == PropsOf(tb.cs, TRUE)
        rem == SelectSeq(tb.cs, LAMBDA c : ~c.at)
    IN [ok |-> r.ok, vars |-> ColVars(r.b), sweep |-> XDim(r.b.xs[1]), parts |-> [k \in 1..Len(ps) |-> Part(ps[k], flags.unit)],
        cmt |-> [k \in 1..Len(rem) |-> rem[k].x]]

(* --- several blocks ----------------------------------------------------------- *)
MDim(d) == M!Dim(d.cls, d.name, d.data, d.unit, "~")
MVar(v) == [n |-> v.n, a |-> M!Arr([k \in 1..Len(v.dims) |-> MDim(v.dims[k])], [k \in 1..Len(v.dims) |-> Len(v.dims[k].data)], "lab", v.vals, <<>>, v.unit, "~")]
MBlock(b) == [vars |-> [k \in 1..Len(b.vars) |-> MVar(b.vars[k])],
              ivars |-> [k \in 1..Len(b.parts) |-> [n |-> b.parts[k].n, d |-> MDim(b.parts[k].d)]], name |-> "", cmt |-> b.cmt]
Indices == {"INDEX1", "INDEX2", "INDEX3", "INDEX4", "INDEX5"}
OfMDim(d) == FDim(d.cls, d.name, IF d.name \in Indices THEN [k \in 1..Len(d.data) |-> RealText(k - 1)] ELSE d.data, d.unit)
KindIn(bs, n) ==
    LET ks == UNION {{bs[k].vars[q].kind : q \in {q \in 1..Len(bs[k].vars) : bs[k].vars[q].n = n}} : k \in 1..Len(bs)}
              \cup UNION {{bs[k].parts[q].kind : q \in {q \in 1..Len(bs[k].parts) : bs[k].parts[q].n = n}} : k \in 1..Len(bs)}
    IN IF ks = {"n"} THEN "n" ELSE IF ks \subseteq {"n", "c"} THEN "c" ELSE IF Cardinality(ks) = 1 THEN CHOOSE k \in ks : TRUE ELSE "?"
Together(bs, hyper) ==
    LET m == M!MergeB([k \in 1..Len(bs) |-> MBlock(bs[k])], hyper) IN
    IF m.st = "err" THEN [ok |-> FALSE, l |-> <<>>]
    ELSE [ok |-> TRUE,
          l |-> <<[vars |-> [k \in 1..Len(m.val.vars) |-> LET v == m.val.vars[k] IN
                                FVar(v.n, KindIn(bs, v.n), [q \in 1..Len(v.a.dims) |-> OfMDim(v.a.dims[q])], v.a.vals, v.a.unit)],
                   sweep |-> bs[1].sweep, parts |-> <<>>, cmt |-> FlattenSeq([k \in 1..Len(bs) |-> bs[k].cmt])]>>]
SpRead(f, flags, merge, hyper) ==
    LET t == TLCEval(Tables(f, 1, <<>>))
        bs == TLCEval([k \in 1..Len(t.l) |-> SpBlock(t.l[k], flags)])
    IN IF ~t.ok \/ \E k \in 1..Len(bs) : ~bs[k].ok THEN [ok |-> FALSE, l |-> <<>>]
       ELSE IF ~merge \/ Len(bs) = 1 THEN [ok |-> TRUE, l |-> bs]
       ELSE Together(bs, hyper)

(* --- saving --------------------------------------------------------------------- *)
(* sweeps with one point only may come back as parameters of the whole block *)
LongDims(ds) == SelectSeq(ds, LAMBDA d : Len(d.data) # 1)
Shorter(v) == [v EXCEPT !.dims = [k \in 1..Len(LongDims(v.dims)) |-> LET d == LongDims(v.dims)[k] IN
                                   IF d.cls \in {"DimMatrix_i", "DimMatrix_j"} THEN [d EXCEPT !.name = "?"] ELSE [d EXCEPT !.cls = "DimSweep"]]]
IsOne(v) == LET n == Len(v.dims) IN n >= 2 /\ v.dims[n].cls = "DimMatrix_j" /\ Len(v.dims[n].data) = 1 /\ Len(v.dims[n - 1].data) = 1
Renamed1(v) == IF IsOne(v) THEN [v EXCEPT !.n = v.n \o "11"] ELSE v
BackWhy(vs, os, Free) == VarsWhy([k \in 1..Len(vs) |-> Shorter(Renamed1(vs[k]))], [k \in 1..Len(os) |-> Shorter(os[k])], Free)
(* the one label of every sweep of one point, and all labels of sweeps without data *)
LabelWhy(ds, o) ==
    UNION {LET d == ds[k]
               hits == {o.ivars[q] : q \in {q \in 1..Len(o.ivars) : o.ivars[q].name = d.name}}
                       \cup UNION {{o.vars[z].dims[q] : q \in {q \in 1..Len(o.vars[z].dims) : o.vars[z].dims[q].name = d.name}} : z \in 1..Len(o.vars)}
           IN IF \E h \in hits : h.data = d.data /\ h.unit = d.unit THEN {} ELSE {"labels or unit of sweep " \o d.name}
           : k \in 1..Len(ds)}
=============================================================================
