-------------------------------- MODULE Citi --------------------------------
(* CITI files.  A file is a sequence of lines, each a record with a tag t:   *)
(*  "c" x, p   comment (p: none or one property)   "citi"  CITIFILE          *)
(*  "name" x   "var" nm, typ    "data" nm, typ    "vb"/"ve" VAR_LIST_BEGIN/END*)
(*  "sb"/"seg" a b n/"se" segment list     "b"/"e" BEGIN/END                 *)
(*  "n" v      one or two numbers          "?" anything else                 *)
EXTENDS Columns
Tag(f, p) == IF p <= Len(f) THEN f[p].t ELSE "end"
RECURSIVE Past(_, _, _)
Past(f, p, t) == IF Tag(f, p) = t THEN Past(f, p + 1, t) ELSE p
Types == {"MAG", "RI", "MAGANGLE"}
Width(typ) == IF typ = "MAG" THEN 1 ELSE 2
NumberOf(typ, v) == CASE typ = "MAG" -> <<V(v[1]), 0>> [] typ = "RI" -> Decoded("RI", v[1], v[2]) [] typ = "MAGANGLE" -> Decoded("MA", v[1], v[2])
Listing(f, p, q, typ) == [k \in 1..(q - p) |-> NumberOf(typ, f[p + k - 1].v)]
ListOk(f, p, q, typ) == typ \in Types /\ \A k \in p..(q - 1) : Len(f[k].v) = Width(typ)
(* n points evenly from a to b *)
Points(a, b, n) == [k \in 1..n |-> <<IF k = 1 THEN V(a) ELSE AddP(V(a), MulP(k - 1, DivP(SubP(V(b), V(a)), n - 1))), 0>>]
Bad == [ok |-> FALSE, p |-> 0, l |-> <<>>]
(* the lists of the declared variables, one after the other, from line p *)
RECURSIVE SweepLists(_, _, _, _)
SweepLists(f, p, decl, acc) ==
    IF Len(acc) = Len(decl) THEN [ok |-> TRUE, p |-> p, l |-> acc]
    ELSE LET d == decl[Len(acc) + 1] IN
         IF Tag(f, p) = "vb"
         THEN LET q == Past(f, p + 1, "n") IN
              IF Tag(f, q) # "ve" \/ ~ListOk(f, p + 1, q, d.typ) THEN Bad ELSE SweepLists(f, q + 1, decl, Append(acc, Listing(f, p + 1, q, d.typ)))
         ELSE IF Tag(f, p) = "sb" /\ Tag(f, p + 1) = "seg" /\ Tag(f, p + 2) = "se"
         THEN SweepLists(f, p + 3, decl, Append(acc, Points(f[p + 1].a, f[p + 1].b, f[p + 1].n)))
         ELSE Bad
RECURSIVE DataLists(_, _, _, _, _)
DataLists(f, p, decl, size, acc) ==
    IF Len(acc) = Len(decl) THEN [ok |-> TRUE, p |-> p, l |-> acc]
    ELSE LET d == decl[Len(acc) + 1] q == Past(f, p + 1, "n") IN
         IF Tag(f, p) # "b" \/ Tag(f, q) # "e" \/ q - p - 1 # size \/ ~ListOk(f, p + 1, q, d.typ) THEN Bad
         ELSE DataLists(f, q + 1, decl, size, Append(acc, Listing(f, p + 1, q, d.typ)))
Nothing == [ok |-> FALSE, name |-> "", b |-> [xs |-> <<>>, cols |-> <<>>], cmt |-> <<>>, props |-> <<>>]
(* where the sections start *)
CitiDecoded(f) ==
    LET p0 == Past(f, 1, "c")
        p1 == IF Tag(f, p0) = "citi" THEN Past(f, p0 + 1, "c") ELSE p0
        v0 == Past(f, p1 + 1, "c")
        v1 == Past(f, v0, "var")
        d0 == Past(f, v1, "c")
        d1 == Past(f, d0, "data")
        l0 == Past(f, d1, "c")
        vd == SubSeq(f, v0, v1 - 1)
        dd == SubSeq(f, d0, d1 - 1)
        sl == SweepLists(f, l0, vd, <<>>)
        dl == DataLists(f, Past(f, sl.p, "c"), dd, ProdSeq([k \in 1..Len(sl.l) |-> Len(sl.l[k])]), <<>>)
        cs == SelectSeq(f, LAMBDA l : l.t = "c")
        kind(typ) == IF typ = "MAG" THEN "n" ELSE "c"
    IN IF (\E k \in 1..Len(f) : f[k].t = "?") \/ Tag(f, p1) # "name" \/ ~sl.ok \/ ~dl.ok THEN Nothing
       ELSE [ok |-> TRUE, name |-> f[p1].x,
             cmt |-> [k \in 1..Len(cs) |-> cs[k].x],
             props |-> FlattenSeq([k \in 1..Len(cs) |-> cs[k].p]),
             b |-> [xs |-> [k \in 1..Len(vd) |-> [nm |-> vd[k].nm, num |-> TRUE, vals |-> sl.l[k], unit |-> NoUnit]],
                    cols |-> [k \in 1..Len(dd) |-> [nm |-> dd[k].nm, kind |-> kind(dd[k].typ), sc |-> FALSE, dims |-> <<>>,
                                                    vals |-> dl.l[k], raws |-> <<>>, unit |-> NoUnit]]]]
(* what reading a file gives *)
CitiRead(f, flags) ==
    LET d == TLCEval(CitiDecoded(f)) IN
    IF ~d.ok THEN [ok |-> FALSE, vars |-> <<>>, name |-> "", cmt |-> <<>>, sweeps |-> {}]
    ELSE LET r == Interpreted(d.b, [flags EXCEPT !.cplx = FALSE], {TRUE, FALSE}, IF flags.prop THEN PropCols(d.props) ELSE <<>>)
         IN [ok |-> r.ok, vars |-> ColVars(r.b), name |-> d.name, cmt |-> d.cmt, sweeps |-> {TextOf(r.b.xs[k].nm) : k \in 1..Len(r.b.xs)}]

(* --- saving ---------------------------------------------------------------- *)
(* what is expected back of the variables vs of a saved block over the sweeps xs (dimensions): *)
(* every variable over all sweeps, a matrix of one element as that element                      *)
IsMat(v) == \E k \in 1..Len(v.dims) : v.dims[k].cls = "DimMatrix_i"
DimAt(v, name) == FirstIdx(v.dims, LAMBDA d : d.name = name)
Over(v, dims) ==    \* v at the coordinates of dims; dimensions it lacks repeat it
    LET sh == [k \in 1..Len(dims) |-> Len(dims[k].data)]
        vsh == [k \in 1..Len(v.dims) |-> Len(v.dims[k].data)]
        to == [k \in 1..Len(v.dims) |-> FirstIdx(dims, LAMBDA d : d.name = v.dims[k].name)]
    IN [v EXCEPT !.dims = dims,
                 !.vals = [q \in 1..Size(sh) |-> LET ix == Unravel(q - 1, sh) IN v.vals[Ravel([k \in 1..Len(v.dims) |-> ix[to[k]]], vsh) + 1]]]
SameNames(v, dims) == {v.dims[k].name : k \in 1..Len(v.dims)} \subseteq {dims[k].name : k \in 1..Len(dims)}
Scalarised(v) == IF IsMat(v) /\ v.dims[Len(v.dims)].cls = "DimMatrix_j" /\ Len(v.dims[Len(v.dims)].data) = 1 /\ Len(v.dims[Len(v.dims) - 1].data) = 1
                 THEN [v EXCEPT !.n = v.n \o "11", !.dims = Take(@, Len(@) - 2)] ELSE v
(* expected against observed variable, in the order of dimensions observed *)
SavedWhy(e, o, ns) ==
    LET swp(v) == {v.dims[k].name : k \in {k \in 1..Len(v.dims) : v.dims[k].cls \notin {"DimMatrix_i", "DimMatrix_j"}}}
        named == {o.dims[k].name : k \in 1..Len(o.dims)}
        want(d) == LET k == DimAt(e, d.name) IN
                   IF k # 0 THEN [e.dims[k] EXCEPT !.unit = "?", !.cls = IF d.cls \in {"DimMatrix_i", "DimMatrix_j"} THEN @ ELSE d.cls] ELSE d
    IN IF swp(o) # ns \/ ~SameNames(e, o.dims) \/ Len(o.dims) # Cardinality(named) THEN {"dimensions of " \o e.n}
       ELSE VarWhy([Over(e, [k \in 1..Len(o.dims) |-> want(o.dims[k])]) EXCEPT !.unit = "?"], o)
SavesWhy(vs, os, sweeps) ==
    LET ns == {sweeps[k].name : k \in 1..Len(sweeps)} IN
    UNION {LET e == Scalarised(vs[q]) k == ByName(os, e.n) IN IF k = 0 THEN {"variable " \o e.n \o " is missing"} ELSE SavedWhy(e, os[k], ns) : q \in 1..Len(vs)}
    \cup UNION {UNION {(IF os[q].dims[k].name = sweeps[s].name /\ ~SameTexts(sweeps[s].data, os[q].dims[k].data) THEN {"coordinates of " \o sweeps[s].name} ELSE {})
                : k \in 1..Len(os[q].dims), s \in 1..Len(sweeps)} : q \in 1..Len(os)}
=============================================================================
