---------------------------- MODULE HelpersTrace ----------------------------
(* Recorded calls of hftools.math.                                           *)
EXTENDS Helpers, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
If(c, why) == IF c THEN {} ELSE {why}
Each(n, Test(_), why) == {why \o " at " \o ToString(q) : q \in {q \in 1..n : ~Test(q)}}
(* dimensions: [n |-> name, l |-> labels] *)
SameDims(v) == If(v.out.dims = v.o.dims, "the dimensions are not those of the input")
Shape(ds) == [q \in 1..Len(ds) |-> Len(ds[q].l)]
OAngle(v) ==
    LET o == v.o IN
    SameDims(v) \cup If(Len(v.out.a) = Len(o.k), "number of values")
    \cup (IF Len(v.out.a) # Len(o.k) THEN {} ELSE
          Each(Len(o.k), LAMBDA q : SameDir(v.out.a[q], o.k[q]), "another direction")
          \cup Each(Len(o.k), LAMBDA q : InBranch(v.out.a[q], o.b), "outside the branch"))
OUnwrap(v) ==
    LET o == v.o IN
    SameDims(v)
    \cup (IF Len(v.out.a) # Len(o.k) THEN {"number of values"} ELSE
          UNION {LET line == LineOf(o.shape, o.axis, n) u == Along(v.out.a, line) ks == Along(o.k, line) IN
                 If(Unwraps(u, ks), "not the unwrapped phase of sequence " \o ToString(n + 1))
                 \cup If(u[1] \in StartOf(ks[1], o.k[1]), "start of sequence " \o ToString(n + 1))
                 : n \in {n \in 0..Size(o.shape) - 1 : Unravel(n, o.shape)[o.axis] = 0}})
(* the dimensions of the delay are those of the variable in any order, one frequency less *)
ODelay(v) ==
    LET o == v.o nd == Len(o.dims) names == [j \in 1..nd |-> o.dims[j].n]
        sh == Shape(o.dims)
        pos(nm) == FirstIdx(v.out.names, LAMBDA x : x = nm)
        osh == [j \in 1..nd |-> IF v.out.names[j] = o.fn THEN Len(o.f) - 1 ELSE sh[FirstIdx(names, LAMBDA x : x = v.out.names[j])]]
        n == Size(osh)
    IN IF Len(v.out.names) # nd \/ Range(v.out.names) # Range(names) THEN {"dimensions of the delay"}
       ELSE IF Len(v.out.tau) # n \/ Len(v.out.f) # n THEN {"number of values"} ELSE
          UNION {LET ix == Unravel(q - 1, osh)
                     at == ix[pos(o.fn)] + 1
                     k(s) == o.k[Ravel([j \in 1..nd |-> ix[pos(names[j])] + (IF names[j] = o.fn THEN s ELSE 0)], sh) + 1]
                     df == o.f[at + 1] - o.f[at]
                 IN If(v.out.f[q] = DivP((o.f[at] + o.f[at + 1]) % P, 2), "frequency of the delay at " \o ToString(q))
                    \cup If(v.out.tau[q] \in {DivP(NegP(s), MulP(Turn, df % P)) : s \in Steps(k(0), k(1))}, "delay at " \o ToString(q))
                 : q \in 1..n}
OSmooth(v) ==
    LET o == v.o IN
    SameDims(v)
    \cup (IF Len(v.out.v) # Len(o.v) THEN {"number of values"} ELSE
          UNION {LET line == LineOf(o.shape, o.axis, n) e == SmoothP(Along(o.v, line), o.ap) IN
                 Each(Len(line), LAMBDA q : v.out.v[line[q]] = e[q], "smoothed sequence " \o ToString(n + 1))
                 : n \in {n \in 0..Size(o.shape) - 1 : Unravel(n, o.shape)[o.axis] = 0}})
(* magnitude and unwrapped phase smoothed; phases of the result in units of Turn/(1440*2520) *)
Fine == 2520
OSmoothMP(v) ==
    LET o == v.o IN
    SameDims(v)
    \cup (IF Len(v.out.v) # Len(o.v) THEN {"number of values"} ELSE
          UNION {LET line == LineOf(o.shape, o.axis, n) L == Len(line)
                     e == SmoothP(Along(o.v, line), o.ap) u == Unwrap(Along(o.k, line)) IN
                 Each(L, LAMBDA q : v.out.v[line[q]] = e[q], "smoothed magnitude, sequence " \o ToString(n + 1))
                 \cup (IF HasTie(Along(o.k, line)) THEN {} ELSE
                       Each(L, LAMBDA q : LET W == Window(L, o.ap, q) IN
                                          (v.out.p[line[q]] - SumOver(u, W) * (Fine \div Cardinality(W))) % (Turn * Fine) = 0,
                            "smoothed phase, sequence " \o ToString(n + 1)))
                 : n \in {n \in 0..Size(o.shape) - 1 : Unravel(n, o.shape)[o.axis] = 0}})
OInterp(v) ==
    LET o == v.o m == o.m n == Len(o.t)
        y(q) == [r \in 1..Len(o.x) |-> o.y[(r - 1) * m + q]] IN
    If(v.out.dims = o.odims, "the dimensions are not those of the input")
    \cup (IF Len(v.out.v) # n * m THEN {"number of values"} ELSE
          {"interpolated value at " \o ToString(q) : q \in {q \in 1..n * m :
              v.out.v[q] # InterpP(o.x, y(((q - 1) % m) + 1), o.t[((q - 1) \div m) + 1])}})
ODb(v) == LET o == v.o IN SameDims(v)
          \cup (IF Len(v.out.d) # Len(o.d) THEN {"number of values"} ELSE Each(Len(o.d), LAMBDA q : v.out.d[q] = o.d[q], "level"))
OComplex(v) == LET o == v.o IN ODb(v)
          \cup (IF Len(v.out.a) # Len(o.k) THEN {"number of values"} ELSE Each(Len(o.k), LAMBDA q : SameDir(v.out.a[q], o.k[q]), "phase"))
ORoot(v) ==
    LET o == v.o IN
    SameDims(v)
    \cup (IF Len(v.out.a) # Len(o.k) THEN {"number of values"} ELSE
          Each(Len(o.k), LAMBDA q : 2 * v.out.d[q] = o.d[q] /\ SameDir(2 * v.out.a[q], o.k[q]), "does not square to the value")
          \cup UNION {LET line == LineOf(o.shape, 1, n) a == Along(v.out.a, line) ks == Along(o.k, line) IN
                      Each(Len(line) - 1, LAMBDA q : \E s \in Steps(ks[q], ks[q + 1]) : SameDir(a[q + 1] - a[q], s \div 2), "root jumps in sequence " \o ToString(n + 1))
                      : n \in {n \in 0..Size(o.shape) - 1 : Unravel(n, o.shape)[1] = 0}})
OChop(v) == LET o == v.o IN SameDims(v) \cup If(v.out.same, "the input is changed")
          \cup (IF Len(v.out.v) # Len(o.v) THEN {"number of values"}
                ELSE Each(Len(o.v), LAMBDA q : v.out.v[q] = (IF AbsI(o.v[q]) < o.th THEN 0 ELSE o.v[q]), "value"))
OPoly(v) == LET o == v.o IN SameDims(v)
          \cup (IF Len(v.out.v) # Len(o.x) THEN {"number of values"} ELSE Each(Len(o.x), LAMBDA q : v.out.v[q] = Poly(o.c, o.x[q]), "a polynomial is not reproduced"))
OPolyMP(v) == LET o == v.o IN SameDims(v)
          \cup (IF Len(v.out.v) # Len(o.x) THEN {"number of values"} ELSE
                Each(Len(o.x), LAMBDA q : v.out.v[q] = Poly(o.c, o.x[q]), "a polynomial magnitude is not reproduced")
                \cup Each(Len(o.x), LAMBDA q : SameDir(v.out.a[q], Poly(o.cp, o.x[q])), "a polynomial phase is not reproduced"))
Refuse(v) == v.o.op = "interp" /\ v.o.strict /\ \E q \in 1..Len(v.o.t) : Outside(v.o.x, v.o.t[q])
Explain(v) ==
    IF Refuse(v) THEN If(v.err = "ValueError", "extrapolation is not refused")
    ELSE IF v.err # "" THEN {"failed: " \o v.err}
    ELSE CASE v.o.op = "angle" -> OAngle(v)
           [] v.o.op = "unwrap" -> OUnwrap(v)
           [] v.o.op = "delay" -> ODelay(v)
           [] v.o.op = "smooth" -> OSmooth(v)
           [] v.o.op = "smoothmp" -> OSmoothMP(v)
           [] v.o.op = "interp" -> OInterp(v)
           [] v.o.op = "db" -> ODb(v)
           [] v.o.op = "complex" -> OComplex(v)
           [] v.o.op = "root" -> ORoot(v)
           [] v.o.op = "chop" -> OChop(v)
           [] v.o.op = "poly" -> OPoly(v)
           [] v.o.op = "polymp" -> OPolyMP(v)
Init == i = 1 /\ bad = 0
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN bad' = bad
           ELSE LET why == Explain(v) IN
                IF why = {} THEN bad' = bad
                ELSE PrintT("VIOL " \o ToJson([line |-> i, why |-> {v.o.op \o ": " \o w : w \in why}])) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
