-------------------------------- MODULE Mdif --------------------------------
(* MDIF files.  A file is a sequence of lines with a tag t:                  *)
(*  "c" x, p  comment (p: none or one property)                              *)
(*  "v" n, typ, v   VAR parameter = value     "a" n, typ, v  # attribute     *)
(*  "b" x  BEGIN name      "e"  END                                          *)
(*  "h" heads  % names; a head is [nm, vec, typ]: vec > 0 for name[vec]      *)
(*  "d" cells  a data row; a cell is [num, int, v, s]: is it a number, an    *)
(*             integer, the number, and its text                             *)
EXTENDS Columns
Tag(f, p) == IF p <= Len(f) THEN f[p].t ELSE "end"
RECURSIVE Past(_, _, _)
Past(f, p, t) == IF Tag(f, p) = t THEN Past(f, p + 1, t) ELSE p
RECURSIVE Packets(_, _, _)
Packets(f, p, acc) ==
    LET v0 == Past(f, p, "c") b == Past(f, v0, "v") a1 == Past(f, b + 1, "a") h1 == Past(f, a1, "h") d1 == Past(f, h1, "d") IN
    IF v0 > Len(f) THEN [ok |-> acc # <<>>, l |-> acc]
    ELSE IF Tag(f, b) # "b" \/ Tag(f, d1) # "e" THEN [ok |-> FALSE, l |-> <<>>]
    ELSE Packets(f, d1 + 1, Append(acc, [cs |-> SubSeq(f, p, v0 - 1), vs |-> SubSeq(f, v0, b - 1), name |-> f[b].x,
                                         as |-> SubSeq(f, b + 1, a1 - 1), hs |-> SubSeq(f, a1, h1 - 1), ds |-> SubSeq(f, h1, d1 - 1)]))
(* --- values ------------------------------------------------------------------ *)
Wide(typ) == IF typ = "complex" THEN 2 ELSE 1
Wids(hs) == [k \in 1..Len(hs) |-> Wide(hs[k].typ)]
Start(hs, k) == SumSeq([q \in 1..(k - 1) |-> Wide(hs[q].typ)]) + 1
CellOk(typ, c) == CASE typ = "string" -> TRUE [] typ = "integer" -> c.int [] OTHER -> c.num
RowOk(hs, cells) == /\ Len(cells) = SumSeq(Wids(hs))
                    /\ \A k \in 1..Len(hs) : \A w \in 0..(Wide(hs[k].typ) - 1) : CellOk(hs[k].typ, cells[Start(hs, k) + w])
ValueOf(typ, cells, p) == CASE typ = "string" -> cells[p].s [] typ = "complex" -> <<V(cells[p].v), V(cells[p + 1].v)>> [] OTHER -> <<V(cells[p].v), 0>>
KindOf(typ) == CASE typ = "string" -> "t" [] typ = "complex" -> "c" [] OTHER -> "n"
DataOk(pk) ==
    LET H == Len(pk.hs) D == Len(pk.ds) IN
    /\ H > 0 /\ D > 0 /\ D % H = 0
    /\ \A k \in 1..D : RowOk(pk.hs[((k - 1) % H) + 1].heads, pk.ds[k].cells)
    /\ \A k \in 1..Len(pk.vs) : pk.vs[k].typ = "real"
    /\ \A k \in 1..Len(pk.as) : pk.as[k].typ = "real"
(* all columns: every header line has its own row of a record *)
AllCols(pk) ==
    LET H == Len(pk.hs) N == Len(pk.ds) \div H IN
    FlattenSeq([h \in 1..H |-> LET hs == pk.hs[h].heads IN
        [k \in 1..Len(hs) |-> [nm |-> hs[k].nm, vec |-> hs[k].vec, kind |-> KindOf(hs[k].typ), sc |-> FALSE, dims |-> <<>>, unit |-> NoUnit,
                               vals |-> [q \in 1..N |-> ValueOf(hs[k].typ, pk.ds[(q - 1) * H + h].cells, Start(hs, k))],
                               raws |-> [q \in 1..N |-> pk.ds[(q - 1) * H + h].cells[Start(hs, k)].v]]]])
(* name[i,j] for all i, j from 1 make a matrix, name[i] for all i from 1 a vector *)
MatIdx(cols, base) == {k \in 1..Len(cols) : cols[k].nm.base = base /\ cols[k].nm.i >= 0 /\ cols[k].nm.br}
VecIdx(cols, base) == {k \in 1..Len(cols) : cols[k].nm.base = base /\ cols[k].vec >= 0}
AnyC(cols, I) == IF \E k \in I : cols[k].kind = "c" THEN "c" ELSE cols[MinOf(I)].kind
MatrixOf(cols, base) ==
    LET I == MatIdx(cols, base)
        R == Cardinality({cols[k].nm.i : k \in I}) C == Cardinality({cols[k].nm.j : k \in I})
        full == Cardinality(I) = R * C /\ {cols[k].nm.i : k \in I} = 1..R /\ {cols[k].nm.j : k \in I} = 1..C
        at(r, c) == cols[CHOOSE k \in I : cols[k].nm.i = r /\ cols[k].nm.j = c]
        N == Len(cols[1].vals)
    IN IF I = {} \/ ~full THEN cols
       ELSE Append(DropCols(cols, I), [cols[MinOf(I)] EXCEPT !.nm = Plain(base), !.kind = AnyC(cols, I), !.dims = <<MatI(R), MatJ(C)>>,
                    !.vals = [q \in 1..(N * R * C) |-> LET ix == Unravel(q - 1, <<N, R, C>>) IN at(ix[2] + 1, ix[3] + 1).vals[ix[1] + 1]]])
VectorOf(cols, base) ==
    LET I == VecIdx(cols, base)
        K == Cardinality(I)
        full == {cols[k].vec : k \in I} = 1..K
        at(r) == cols[CHOOSE k \in I : cols[k].vec = r]
        N == Len(cols[1].vals)
    IN IF I = {} \/ ~full THEN cols
       ELSE Append(DropCols(cols, I), [cols[MinOf(I)] EXCEPT !.nm = Plain(base), !.vec = -1, !.kind = AnyC(cols, I), !.dims = <<MatJ(K)>>,
                    !.vals = [q \in 1..(N * K) |-> LET ix == Unravel(q - 1, <<N, K>>) IN at(ix[2] + 1).vals[ix[1] + 1]]])
RECURSIVE Shaped(_, _)
Shaped(cols, S) == IF S = {} THEN cols ELSE LET b == CHOOSE b \in S : TRUE IN Shaped(VectorOf(MatrixOf(cols, b), b), S \ {b})
NamedCol(c) == IF c.vec < 0 THEN c ELSE [c EXCEPT !.nm = Plain(c.nm.base \o "[" \o ToString(c.vec) \o "]")]
PacketBlock(pk) ==
    LET all == AllCols(pk)
        sh == Shaped(Tail(all), {all[k].nm.base : k \in 2..Len(all)})
        att == [k \in 1..Len(pk.as) |-> [nm |-> Plain(pk.as[k].n), kind |-> "n", sc |-> TRUE, dims |-> <<>>, unit |-> NoUnit, vals |-> <<<<V(pk.as[k].v), 0>>>>, raws |-> <<pk.as[k].v>>]]
        cut(c) == [nm |-> c.nm, kind |-> c.kind, sc |-> c.sc, dims |-> c.dims, unit |-> c.unit, vals |-> c.vals, raws |-> c.raws]
    IN [xs |-> <<[nm |-> all[1].nm, num |-> all[1].kind # "t", vals |-> all[1].vals, unit |-> NoUnit]>>,
        cols |-> [k \in 1..Len(sh) |-> cut(NamedCol(sh[k]))] \o att]
ReadBlock(pk, flags) ==
    LET r == Interpreted(PacketBlock(pk), flags, {FALSE}, IF flags.prop THEN PropCols(FlattenSeq([k \in 1..Len(pk.cs) |-> pk.cs[k].p])) ELSE <<>>)
    IN [ok |-> r.ok, name |-> pk.name, vars |-> ColVars(r.b), sweep |-> XDim(r.b.xs[1]),
        parts |-> [k \in 1..Len(pk.vs) |-> [n |-> pk.vs[k].n, d |-> FDim("DimPartial", pk.vs[k].n, <<RealText(V(pk.vs[k].v))>>, IF flags.unit THEN Guess(pk.vs[k].n) ELSE NoUnit)]],
        cmt |-> [k \in 1..Len(pk.cs) |-> pk.cs[k].x]]

(* --- blocks with the same name, one after the other along INDEX ------------------ *)
VNames(b) == {b.vars[k].n : k \in 1..Len(b.vars)}
PNames(b) == {b.parts[k].n : k \in 1..Len(b.parts)}
IndexDim(K) == FDim("DimRep", "INDEX", [k \in 1..K |-> RealText(k - 1)], NoUnit)
VarOf(b, n) == b.vars[ByName(b.vars, n)]
DimsOf(v) == [k \in 1..Len(v.dims) |-> [v.dims[k] EXCEPT !.unit = "?"]]
Joinable(bs) == \A k \in 2..Len(bs) : /\ VNames(bs[k]) = VNames(bs[1]) /\ PNames(bs[k]) = PNames(bs[1])
                                      /\ \A n \in VNames(bs[1]) : DimsOf(VarOf(bs[k], n)) = DimsOf(VarOf(bs[1], n))
JoinVar(bs, n) ==
    LET p == VarOf(bs[1], n) K == Len(bs)
        sh == [k \in 1..Len(p.dims) |-> Len(p.dims[k].data)]
        nd == IF p.dims = <<>> THEN <<IndexDim(K)>> ELSE <<p.dims[1], IndexDim(K)>> \o Tail(p.dims)
        nsh == [k \in 1..Len(nd) |-> Len(nd[k].data)]
        kinds == {VarOf(bs[k], n).kind : k \in 1..K}
        val(ix) == IF p.dims = <<>> THEN VarOf(bs[ix[1] + 1], n).vals[1]
                   ELSE VarOf(bs[ix[2] + 1], n).vals[Ravel(<<ix[1]>> \o Drop(ix, 2), sh) + 1]
    IN FVar(n, IF Cardinality(kinds) = 1 THEN p.kind ELSE IF kinds = {"n", "c"} THEN "c" ELSE "?", nd,
            [q \in 1..Size(nsh) |-> val(Unravel(q - 1, nsh))], p.unit)
PartNo(b, n) == FirstIdx(b.parts, LAMBDA x : x.n = n)
JoinPart(bs, n) == LET p == bs[1].parts[PartNo(bs[1], n)] IN
    FVar(n, "n", <<IndexDim(Len(bs))>>, [k \in 1..Len(bs) |-> bs[k].parts[PartNo(bs[k], n)].d.data[1]], p.d.unit)
Joined1(bs) ==
    IF Len(bs) = 1 THEN [ok |-> TRUE, b |-> bs[1]]
    ELSE IF ~Joinable(bs) THEN [ok |-> FALSE, b |-> bs[1]]
    ELSE [ok |-> TRUE, b |-> [bs[1] EXCEPT !.vars = [k \in 1..Len(bs[1].vars) |-> JoinVar(bs, bs[1].vars[k].n)]
                                                 \o [k \in 1..Len(bs[1].parts) |-> JoinPart(bs, bs[1].parts[k].n)],
                                           !.parts = <<>>, !.cmt = FlattenSeq([k \in 1..Len(bs) |-> bs[k].cmt])]]
(* units are guessed again for what has become of the columns *)
GuessedB(b) == [b EXCEPT !.vars = [k \in 1..Len(b.vars) |-> [b.vars[k] EXCEPT !.unit = GuessU(@, b.vars[k].n)]]]
MdRead(f, flags) ==
    LET t == TLCEval(Packets(f, 1, <<>>))
        good == t.ok /\ \A k \in 1..Len(t.l) : DataOk(t.l[k])
        bs == TLCEval([k \in 1..Len(t.l) |-> ReadBlock(t.l[k], flags)])
        names == {t.l[k].name : k \in 1..Len(t.l)}
        of(n) == SelectSeq(bs, LAMBDA b : b.name = n)
        j == TLCEval([n \in names |-> Joined1(of(n))])
    IN IF ~good THEN [ok |-> FALSE, names |-> {}, b |-> <<>>]
       ELSE IF (\E k \in 1..Len(bs) : ~bs[k].ok) \/ \E n \in names : ~j[n].ok THEN [ok |-> FALSE, names |-> {}, b |-> <<>>]
       ELSE [ok |-> TRUE, names |-> names, b |-> [n \in names |-> IF flags.unit THEN GuessedB(j[n].b) ELSE j[n].b]]
=============================================================================
