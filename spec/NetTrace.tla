------------------------------ MODULE NetTrace ------------------------------
(* Conformance of recorded network sessions with Nets.  nets: register ->     *)
(* [kind, z0, a] or, for noisy two-ports, additionally c (correlation).       *)
EXTENDS Nets, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES nets, i, skip, bad
vars == <<heap, nets, i, skip, bad>>

Good(a) == WellShaped(a) /\ Exact(a)
DimsAre(nd, r) == Len(nd) = NDim(r) /\ SameDims(nd, r.dims)
LabelsFit(r) == \A k \in 1..NDim(r) : Len(r.dims[k].data) = r.shape[k]
(* r has the union of the operands' outer dimensions and every point satisfies Rel *)
OverPoints(r, ops, Rel(_, _)) ==
    \A p \in 1..Len(Points(r)) : LET ix == Points(r)[p] IN
        Rel([k \in 1..Len(ops) |-> MatAt(ops[k], ops[k].vals, Under(r, ix, ops[k]))], MatAt(r, r.vals, ix))
        /\ Rel([k \in 1..Len(ops) |-> MatAt(ops[k], CJ(ops[k]), Under(r, ix, ops[k]))], MatAt(r, CJ(r), ix))
ShapeUnion(nd, ops) == [k \in 1..Len(nd) |-> MaxOf({1} \cup UNION {{ops[q].shape[j] : j \in {m \in 1..NDim(ops[q]) : Answers(ops[q].dims[m], nd[k])}} : q \in 1..Len(ops)})]
Layout(r, ops) ==
    LET nd == DimsUnion(ops) IN
    (IF ~DimsAre(nd, r) THEN {"dimensions of the result"} ELSE IF r.shape # ShapeUnion(nd, ops) THEN {"shape of the result"} ELSE {})
(* r holds R x C matrices over the union of the operands' outer dimensions *)
MatLayout(r, ops, R, C) ==
    LET u == DimsUnion(ops) m == Len(u) - 2 nd == Take(u, m) n == NDim(r) IN
    IF n # m + 2 \/ ~IsMat(r) \/ ~SameDims(nd, OuterDims(r)) THEN {"dimensions of the result"}
    ELSE IF r.shape # Take(ShapeUnion(u, ops), m) \o <<R, C>> THEN {"shape of the result"}
    ELSE IF Len(r.dims[n - 1].data) # R \/ Len(r.dims[n].data) # C THEN {"labels of rows or columns"} ELSE {}
MatResult(r, ops, R, C, Rel(_, _), what) ==
    IF ~WellShaped(r) THEN {what \o ": malformed result"}
    ELSE LET lay == MatLayout(r, ops, R, C) IN
         IF lay # {} THEN lay ELSE IF ~Exact(r) THEN {what \o ": values"}
         ELSE IF OverPoints(r, ops, Rel) THEN {} ELSE {what}
NetSame(e, o) == e.kind = o.kind /\ e.z0 = o.z0 /\ e.a.shape = o.a.shape /\ SameDims(e.a.dims, o.a.dims) /\ SameVals(e.a, o.a)
Unchanged(old, new, except) == UNION {IF r \in except THEN {} ELSE IF r \notin DOMAIN new THEN {"a network vanished"}
                                      ELSE IF old[r] = new[r] THEN {} ELSE {"another network changed"} : r \in DOMAIN old}
(* r is over the points and in the dimension order of s *)
SameFrame(r, s, Rel(_, _), what) ==
    IF ~WellShaped(r.a) THEN {what \o ": malformed result"}
    ELSE IF ~DimsAre(s.dims, r.a) THEN {"dimensions of the result"} ELSE IF r.a.shape # s.shape THEN {"shape of the result"}
    ELSE IF ~Exact(r.a) THEN {what \o ": values"}
    ELSE IF OverPoints(r.a, <<s>>, Rel) THEN {} ELSE {what}
(* y has the same dimensions as x, in any order *)
SamePoints(x, y) ==
    /\ NDim(x) = NDim(y) /\ IsMat(y) /\ SameDims(Drop(x.dims, NDim(x) - 2), Drop(y.dims, NDim(y) - 2))
    /\ \A j \in 1..NDim(x) : \E k \in 1..NDim(y) : SameDims(<<x.dims[j]>>, <<y.dims[k]>>) /\ x.shape[j] = y.shape[k]
(* result network r (of kind k) described by Rel over operands *)
ResultIs(r, ops, Rel(_, _), what) ==
    IF ~WellShaped(r.a) THEN {what \o ": malformed result"}
    ELSE LET lay == Layout(r.a, ops) IN
         IF lay # {} THEN lay
         ELSE IF ~Exact(r.a) THEN {what \o ": values"}
         ELSE IF OverPoints(r.a, ops, Rel) THEN {} ELSE {what}

Explain(ns, v) ==
    LET o == v.o
        new == v.nets
        r == new[o.dst]
        frame == Unchanged(ns, new, IF v.err = "" THEN {o.dst} ELSE {})
    IN frame \cup
    IF o.expect = "err" THEN (IF v.err = "" THEN {"should be refused"} ELSE {})
    ELSE IF v.err # "" THEN {"refused: " \o v.err}
    ELSE CASE o.op = "new" -> IF r.kind = o.kind /\ r.z0 = o.z0 /\ r.a.shape = o.arr.shape /\ SameDims(o.arr.dims, r.a.dims) /\ SameVals(o.arr, r.a) /\ r.a.unit = o.arr.unit
                              THEN {} ELSE {"network constructed from data"}
           [] o.op = "conv" ->
                LET s == ns[o.x] IN
                (IF r.kind # o.kind THEN {"kind of the result"} ELSE {})
                \cup (IF o.kind \in WaveKinds /\ o.z0 # 0 /\ r.z0 # o.z0 THEN {"reference impedance of the result"} ELSE {})
                \cup (IF o.kind \in WaveKinds /\ o.z0 = 0 /\ r.z0 \notin {50, s.z0} THEN {"reference impedance of the result"} ELSE {})
                \cup SameFrame(r, s.a, LAMBDA m, q : SameNetwork(s.kind, s.z0, m[1], r.kind, r.z0, q), "converted parameters describe another network")
           [] o.op = "cascade" ->
                LET s == ns[o.x] t == ns[o.y] IN
                (IF r.kind # s.kind THEN {"kind of the result"} ELSE {})
                \cup ResultIs(r, <<s.a, t.a>>, LAMBDA m, q : SameNetwork("S", 50, Join(SForm(s, m[1]), SForm(t, m[2])), r.kind, r.z0, q), "not the cascade")
           [] o.op = "cascade3" ->
                LET s == ns[o.x] t == ns[o.y] u == ns[o.w] IN
                ResultIs(r, <<s.a, t.a, u.a>>, LAMBDA m, q : SameNetwork("S", 50, Join(Join(SForm(s, m[1]), SForm(t, m[2])), SForm(u, m[3])), r.kind, r.z0, q), "not the cascade of three")
           [] o.op = "deembed" ->       \* joining what was removed gives the original back
                LET s == ns[o.x]
                    l == IF o.left = "" THEN <<>> ELSE <<ns[o.left]>>
                    g == IF o.right = "" THEN <<>> ELSE <<ns[o.right]>>
                    sides == [k \in 1..Len(l \o g) |-> (l \o g)[k].a]
                    full(m, q) == LET inner == ConvM(r.kind, r.z0, q, "S", 50)
                                      withl == IF l = <<>> THEN inner ELSE Join(SForm(l[1], m[2]), inner)
                                  IN IF g = <<>> THEN withl ELSE Join(withl, SForm(g[1], m[Len(sides) + 1]))
                IN (IF r.kind # s.kind THEN {"kind of the result"} ELSE {})
                   \cup ResultIs(r, <<s.a>> \o sides, LAMBDA m, q : SameNetwork(s.kind, s.z0, m[1], "S", 50, full(m, q)), "de-embedding does not undo the cascade")
           [] o.op = "slice" ->
                LET s == ns[o.x] m == Index(s.a, o.items) IN
                IF m.st = "err" THEN {"driver index"}
                ELSE (IF r.kind # s.kind \/ r.z0 # s.z0 THEN {"kind or reference impedance lost"} ELSE {})
                     \cup (IF m.val.shape = r.a.shape /\ SameDims(m.val.dims, r.a.dims) /\ SameVals(m.val, r.a) THEN {} ELSE {"selected networks"})
           [] o.op = "get" ->
                LET m == Index(ns[o.x].a, <<[t |-> "ell"], [t |-> "int", i |-> o.i - 1], [t |-> "int", i |-> o.j - 1]>>).val IN
                IF m.shape = v.out.shape /\ SameDims(m.dims, v.out.dims) /\ SameVals(m, v.out) THEN {} ELSE {"element read by name"}
           [] o.op = "set" ->
                LET s == ns[o.x].a
                    n == NDim(s)
                    e == o.arr
                    at(ix) == [q \in 1..NDim(e) |-> IF e.shape[q] = 1 THEN 0 ELSE ix[FirstIdx(s.dims, LAMBDA d : Answers(e.dims[q], d))]]
                    put(a, b) == [k \in 1..Len(a) |-> LET ix == Unravel(k - 1, s.shape) IN
                              IF ix[n - 1] = o.i - 1 /\ ix[n] = o.j - 1 THEN b[Ravel(at(ix), e.shape) + 1] % P ELSE a[k] % P]
                    want == [s EXCEPT !.vals = put(s.vals, e.vals), !.cj = IF IsCplx(s) THEN put(CJ(s), CJ(e)) ELSE <<>>, !.num = "gf"]
                IN IF r.a.shape = s.shape /\ SameDims(s.dims, r.a.dims) /\ SameVals(want, r.a)
                      /\ r.kind = ns[o.x].kind /\ r.z0 = ns[o.x].z0 THEN {} ELSE {"element written by name"}
           [] o.op \in {"noisy", "thermal", "nconv", "frompar"} ->
                LET C == r.c IN
                IF ~WellShaped(C) THEN {"malformed correlation matrix"} ELSE
                IF ~Exact(C) THEN {"correlation matrix: values"} ELSE
                (CASE o.op = "noisy" -> {}
                  [] o.op = "thermal" ->
                       (IF NetSame(ns[o.x], r) THEN {} ELSE {"network of the noisy two-port"})
                       \cup (IF SamePoints(r.a, C) /\ \A p \in 1..Len(Points(r.a)) : LET ix == Points(r.a)[p] IN
                                SameM(MatAt(C, C.vals, Under(r.a, ix, C)), Thermal(r.kind, MatAt(r.a, r.a.vals, ix), MatAt(r.a, CJ(r.a), ix)))
                             THEN {} ELSE {"thermal noise correlation"})
                  [] o.op = "nconv" ->
                       LET s == ns[o.x] IN
                       (IF r.kind # o.kind THEN {"kind of the result"} ELSE {})
                       \cup SameFrame(r, s.a, LAMBDA m, q : SameNetwork(s.kind, s.z0, m[1], r.kind, r.z0, q), "converted parameters describe another network")
                       \cup (IF ~SamePoints(r.a, C) THEN {"dimensions of the correlation matrix"}
                             ELSE IF \A p \in 1..Len(Points(r.a)) : LET ix == Points(r.a)[p] IN
                                SameNoise(s.kind, s.z0, MatAt(s.a, s.a.vals, ix), MatAt(s.a, CJ(s.a), ix), MatAt(s.c, s.c.vals, Under(r.a, ix, s.c)), r.kind, r.z0, MatAt(C, C.vals, Under(r.a, ix, C)))
                             THEN {} ELSE {"noise correlation not transformed with the network"})
                  [] o.op = "frompar" ->
                       LET s == ns[o.x] q == o.par IN
                       SameFrame(r, s.a, LAMBDA m, w : SameNetwork(s.kind, s.z0, m[1], r.kind, r.z0, w), "network of the noisy two-port")
                       \cup (IF r.kind = "A" /\ \A p \in 1..Len(Points(r.a)) :
                                SameM(MatAt(C, C.vals, Under(r.a, Points(r.a)[p], C)), ChainNoise(q.rn[p], q.fmin[p], q.y[p], q.yc[p]))
                             THEN {} ELSE {"chain correlation from noise parameters"}))
           [] o.op = "npar" ->       \* the noise parameters reproduce the correlation matrix
                LET s == ns[o.x] q == v.out IN
                IF q.bad THEN {"noise parameters are not the expected numbers"}
                ELSE (IF \A p \in 1..Len(Points(s.a)) : LET ix == Points(s.a)[p] IN
                        SameNoise(s.kind, s.z0, MatAt(s.a, s.a.vals, ix), MatAt(s.a, CJ(s.a), ix), MatAt(s.c, s.c.vals, Under(s.a, ix, s.c)), "A", 50, ChainNoise(q.rn[p], q.fmin[p], q.y[p], q.yc[p]))
                      THEN {} ELSE {"noise parameters do not reproduce the correlation matrix"})
                \cup (IF \A p \in 1..Len(q.y) : MulP(q.g[p], AddP(1, MulP(50, q.y[p]))) = SubP(1, MulP(50, q.y[p])) THEN {} ELSE {"optimum reflection does not match optimum admittance"})
           [] o.op = "mm" -> MatResult(v.out, <<o.a, o.b>>, Rows(o.a), Cols(o.b), LAMBDA m, q : SameM(q, MatMul(m[1], m[2])), "matrix product")
           [] o.op = "switch" -> MatResult(v.out, <<o.b, o.a>>, Rows(o.b), Cols(o.a), LAMBDA m, q : SameM(MatMul(q, m[2]), m[1]), "switch correction")
           [] o.op = "inv" ->
                (IF ~WellShaped(v.out) \/ ~Exact(v.out) \/ v.out.shape # o.a.shape \/ ~SameDims(o.a.dims, v.out.dims) THEN {"inverse: layout"}
                 ELSE IF ~OverPoints(v.out, <<o.a>>, LAMBDA m, q : SameM(MatMul(q, m[1]), Eye(Len(q)))) THEN {"matrix inverse"} ELSE {})
           [] o.op = "det" ->
                LET a == o.a IN
                IF v.out.shape # OuterShape(a) \/ ~SameDims(OuterDims(a), v.out.dims) \/ ~Exact(v.out) THEN {"determinant: layout"}
                ELSE IF \A p \in 1..Len(v.out.vals) : LET ix == Points(a)[p] IN
                        DetP(MatAt(a, a.vals, ix)) = v.out.vals[p] % P /\ DetP(MatAt(a, CJ(a), ix)) = CJ(v.out)[p] % P THEN {} ELSE {"determinant"}
           [] o.op = "solve" -> MatResult(v.out, <<o.a, o.b>>, Cols(o.a), Cols(o.b), LAMBDA m, q : SameM(MatMul(m[1], q), m[2]), "linear system")
           [] o.op = "lstsq" ->      \* A^H A x = A^H b
                LET a == o.a b == o.b IN
                MatResult(v.out, <<a, b>>, Cols(a), Cols(b), LAMBDA m, q : TRUE, "least squares")
                \cup IF ~Exact(v.out) \/ ~WellShaped(v.out) \/ MatLayout(v.out, <<a, b>>, Cols(a), Cols(b)) # {} THEN {}
                     ELSE IF \A p \in 1..Len(Points(v.out)) : LET ix == Points(v.out)[p]
                                                                  A == MatAt(a, a.vals, Under(v.out, ix, a))
                                                                  Ah == MatT(MatAt(a, CJ(a), Under(v.out, ix, a)))
                                                              IN SameM(MatMul(Ah, MatMul(A, MatAt(v.out, v.out.vals, ix))), MatMul(Ah, MatAt(b, b.vals, Under(v.out, ix, b))))
                          THEN {} ELSE {"least squares"}
           [] o.op = "mk2" ->
                LET es == o.es
                    nd == DimsUnion(es)
                    w == v.out
                    n == Len(nd)
                    under(ix, x) == [j \in 1..NDim(x) |-> LET k == FirstIdx(nd, LAMBDA d : Answers(x.dims[j], d)) IN IF x.shape[j] = 1 THEN 0 ELSE ix[k]]
                    pick(ix) == es[2 * ix[n + 1] + ix[n + 2] + 1]
                IN IF ~WellShaped(w) \/ ~Exact(w) \/ ~SameDims(nd, OuterDims(w)) \/ w.shape # ShapeUnion(nd, es) \o <<2, 2>> \/ ~IsMat(w) THEN {"2x2 assembly: layout"}
                   ELSE IF \A k \in 1..Len(w.vals) : LET ix == Unravel(k - 1, w.shape) e == pick(ix) q == Ravel(under(ix, e), e.shape) + 1 IN
                           e.vals[q] % P = w.vals[k] % P /\ CJ(e)[q] % P = CJ(w)[k] % P THEN {} ELSE {"2x2 assembly"}

Init == i = 1 /\ heap = <<>> /\ nets = <<>> /\ skip = FALSE /\ bad = 0
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ heap' = heap
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN nets' = <<>> /\ skip' = FALSE /\ bad' = bad
           ELSE IF v.ev = "drop" THEN nets' = [r \in DOMAIN nets \ {v.r} |-> nets[r]] /\ UNCHANGED <<skip, bad>>
           ELSE IF skip THEN UNCHANGED <<nets, skip, bad>>
           ELSE LET why == Explain(nets, v) IN
                IF why = {} THEN nets' = v.nets /\ UNCHANGED <<skip, bad>>
                ELSE /\ PrintT("VIOL " \o ToJson([line |-> i, why |-> why]))
                     /\ skip' = TRUE /\ bad' = bad + 1 /\ UNCHANGED nets
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
