------------------------------- MODULE MCMdif -------------------------------
(* Bounded model: MDIF packets of two names are written in any order; the    *)
(* packets with one name are found side by side in the order written.        *)
EXTENDS Mdif, Json
CONSTANTS MaxPackets, MaxRows, HistOn
VARIABLES shape, done, file
vars == <<shape, done, file>>
Nr(k) == <<k, k, 1, 0, -1>>
Cl(k) == [num |-> TRUE, int |-> TRUE, v |-> Nr(k), s |-> "t:" \o ToString(k)]
Hd(nm, vec, typ) == [nm |-> nm, vec |-> vec, typ |-> typ]
El2(i, j) == [El("S", i, j) EXCEPT !.br = TRUE]
Forms == <<  (* header lines *)
  << <<Hd(Plain("x"), -1, "real"), Hd(Plain("P"), -1, "complex")>> >>,
  << <<Hd(Plain("x"), -1, "real")>>, <<Hd(Plain("P"), -1, "real"), Hd(Plain("Q"), -1, "integer")>> >>,
  << <<Hd(Plain("x"), -1, "integer"), Hd(El2(1, 2), -1, "real"), Hd(El2(1, 1), -1, "complex")>> >>,
  << <<Hd(Plain("x"), -1, "real"), Hd(Plain("W"), 2, "real"), Hd(Plain("W"), 1, "real"), Hd(Plain("W"), 3, "real")>> >> >>
Kinds == {[form |-> f, rows |-> r, par |-> p, att |-> a] : f \in 1..Len(Forms), r \in 1..MaxRows, p \in BOOLEAN, a \in BOOLEAN}
Init == /\ shape \in [{"one", "two"} -> Kinds] /\ shape["two"].rows = 1 /\ ~shape["two"].att
        /\ done = <<>> /\ file = <<>>
Val(k, q, c) == 1000 * k + 100 * q + c
HLines(n) == Forms[shape[n].form]
RowCells(n, k, q, h) == LET w == SumSeq(Wids(HLines(n)[h])) IN [c \in 1..w |-> IF h = 1 /\ c = 1 THEN Cl(q) ELSE Cl(Val(k, q, 10 * h + c))]
Packet(n, k) ==
    (IF shape[n].par THEN <<[t |-> "v", n |-> "A", typ |-> "real", v |-> Nr(k)]>> ELSE <<>>)
    \o <<[t |-> "b", x |-> n]>>
    \o (IF shape[n].att THEN <<[t |-> "a", n |-> "R", typ |-> "real", v |-> Nr(50 + k)]>> ELSE <<>>)
    \o [h \in 1..Len(HLines(n)) |-> [t |-> "h", heads |-> HLines(n)[h]]]
    \o FlattenSeq([q \in 1..shape[n].rows |-> [h \in 1..Len(HLines(n)) |-> [t |-> "d", cells |-> RowCells(n, k, q, h)]]])
    \o <<[t |-> "e"]>>
Next == /\ Len(done) < MaxPackets
        /\ \E n \in {"one", "two"} : done' = Append(done, n) /\ file' = file \o Packet(n, Len(done) + 1)
        /\ UNCHANGED shape
Spec == Init /\ [][Next]_vars
Off == [cplx |-> FALSE, unit |-> FALSE, norm |-> FALSE, mat |-> FALSE, prop |-> FALSE]
R == MdRead(file, Off)
Mine(n) == SelectSeq(IotaFrom(1, Len(done)), LAMBDA k : done[k] = n)
At(v, ix, n) == LET d == FirstIdx(v.dims, LAMBDA e : e.name = n) IN IF d = 0 THEN 0 ELSE ix[d]
Shp(v) == [k \in 1..Len(v.dims) |-> Len(v.dims[k].data)]
(* the value of variable t at row q of the z-th packet, matrix position i, j *)
Get(b, t, q, z, i, j) ==
    LET v == b.vars[ByName(b.vars, t)]
        h == {p \in 1..Len(v.vals) : LET ix == Unravel(p - 1, Shp(v)) IN At(v, ix, "x") = q - 1 /\ At(v, ix, "INDEX") = z - 1 /\ At(v, ix, "i") = i - 1 /\ At(v, ix, "j") = j - 1}
    IN IF Cardinality(h) = 1 THEN v.vals[CHOOSE p \in h : TRUE] ELSE "none"
RowMeant(b, n, k, z, q) ==
    LET c(h, w) == Val(k, q, 10 * h + w) IN
    CASE shape[n].form = 1 -> Get(b, "P", q, z, 1, 1) = NumText(c(1, 2), c(1, 3))
      [] shape[n].form = 2 -> Get(b, "P", q, z, 1, 1) = RealText(c(2, 1)) /\ Get(b, "Q", q, z, 1, 1) = RealText(c(2, 2))
      [] shape[n].form = 3 -> Get(b, "S", q, z, 1, 2) = RealText(c(1, 2)) /\ Get(b, "S", q, z, 1, 1) = NumText(c(1, 3), c(1, 4))
      [] OTHER -> Get(b, "W", q, z, 1, 1) = RealText(c(1, 3)) /\ Get(b, "W", q, z, 1, 2) = RealText(c(1, 2)) /\ Get(b, "W", q, z, 1, 3) = RealText(c(1, 4))
ParMeant(b, n, k, z, many) == /\ shape[n].att => Get(b, "R", 1, z, 1, 1) = RealText(50 + k)
                              /\ (shape[n].par /\ many) => Get(b, "A", 1, z, 1, 1) = RealText(k)
                              /\ (shape[n].par /\ ~many) => b.parts[1].d.data = <<RealText(k)>>
InvMeant == done # <<>> =>
    LET r == TLCEval(R) IN
    /\ r.ok /\ r.names = Range(done)
    /\ \A n \in Range(done) : LET m == Mine(n) IN
         \A z \in 1..Len(m) : (\A q \in 1..shape[n].rows : RowMeant(r.b[n], n, m[z], z, q)) /\ ParMeant(r.b[n], n, m[z], z, Len(m) > 1)
(* nothing may be missing: no structural line, no row group, no cell *)
Bad(f) == ~MdRead(f, Off).ok
InvNeeded == \A k \in 1..Len(file) :
    /\ file[k].t \in {"b", "e"} => Bad(RemoveAt(file, k))
    /\ file[k].t = "d" => Bad([file EXCEPT ![k].cells = Tail(@)]) /\ Bad([file EXCEPT ![k].cells = Append(@, Cl(1))])
InvPrefix == done # <<>> => \A k \in 1..(Len(file) - 1) : file[k].t # "e" => Bad(Take(file, k))
Emit == (HistOn /\ Len(done) > 1) => PrintT("BEHAVIOUR " \o ToJson([file |-> file]))
=============================================================================
