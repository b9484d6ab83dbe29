----------------------------- MODULE PlotsTrace -----------------------------
(* Recorded uses of hftools.plotting.                                        *)
EXTENDS Plots, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad, ax
vars == <<i, bad, ax>>
If(c, why) == IF c THEN {} ELSE {why}
NoAx == [kind |-> "", xu |-> {<<>>}, yu |-> {<<>>}, name |-> "X", named |-> FALSE, xpre |-> "", ypre |-> "", xpow |-> FALSE, ypow |-> FALSE]
NewAx(kind) ==
    [NoAx EXCEPT !.kind = kind, !.yu = {DefaultUnit(kind)},
                 !.xpre = (IF kind = "cplx" THEN "Real " ELSE "{default} "),
                 !.ypre = (IF kind = "cplx" THEN "Imaginary " ELSE IF kind = "groupdelay" THEN "$\\tau$ " ELSE "")]
(* after a plot: units of the data are taken over, the first sweep names the axis *)
Plotted(a, o) ==
    LET plane == o.kind \in PlaneKinds \/ (o.kind \in {"rectilinear", "unity"} /\ o.cplx)
        xu == IF plane THEN o.yu ELSE o.xu
        nm == IF o.one /\ ~a.named THEN o.name ELSE a.name IN
    [a EXCEPT !.name = nm, !.named = @ \/ o.one,
              !.xu = (IF xu = <<>> THEN @ ELSE {xu}),
              !.yu = (IF o.yu = <<>> THEN @ ELSE IF OtherUnit(o.kind) THEN @ \cup {o.yu} ELSE {o.yu})]
(* a label format is given, or only a unit *)
Relabelled(a, o) ==
    LET u == IF o.unit # <<>> THEN {o.unit} ELSE IF o.axis = "y" /\ a.kind \in PhaseKinds /\ o.op = "fmt" THEN {DefaultUnit(a.kind)} ELSE IF o.axis = "x" THEN a.xu ELSE a.yu
        b == IF o.axis = "x" THEN [a EXCEPT !.xu = u] ELSE [a EXCEPT !.yu = u] IN
    IF o.op = "unit" THEN b ELSE IF o.axis = "x" THEN [b EXCEPT !.xpre = o.pre, !.xpow = o.power] ELSE [b EXCEPT !.ypre = o.pre, !.ypow = o.power]

(* --- lines ----------------------------------------------------------------------- *)
PolarOk(z, p) == SameDir(p.x, z.k) /\ p.y = Tens(z.d) % P
LineWhy(o, line, l) ==
    LET n == o.shape[1] z(q) == o.data[SampleAt(o.shape, l, q)]
        x(q) == IF o.xn = 1 THEN o.x[q] ELSE o.x[SampleAt(o.shape, l, q)]
        at(q) == "line " \o ToString(l) \o " at " \o ToString(q)
        len == IF o.kind = "groupdelay" THEN n - 1 ELSE n IN
    IF Len(line) # len THEN {"length of line " \o ToString(l)} ELSE
    CASE o.kind \in PlaneKinds \/ (o.kind = "rectilinear" /\ o.cplx) ->
            UNION {If(line[q].x = z(q).re % P /\ line[q].y = z(q).im % P, at(q)) : q \in 1..n}
      [] o.kind = "cplxpolar" -> UNION {If(PolarOk(z(q), line[q]), at(q)) : q \in 1..n}
      [] o.kind = "groupdelay" ->
            UNION {LET df == o.x[q + 1] - o.x[q] IN
                   If(line[q].x = DivP((o.x[q] + o.x[q + 1]) % P, 2), "frequency of " \o at(q))
                   \cup If(line[q].y \in {DivP(NegP(s), MulP(Turn, df % P)) : s \in Steps(z(q).k, z(q + 1).k)}, at(q)) : q \in 1..n - 1}
      [] o.kind \in {"deg", "rad"} ->
            UNION {If(line[q].x = x(q) % P, "horizontal value of " \o at(q)) \cup If(SameDir(line[q].y, z(q).k) /\ InBranch(line[q].y, -Half), at(q)) : q \in 1..n}
      [] o.kind \in {"unwrapdeg", "unwraprad"} ->
            UNION {If(line[q].x = x(q) % P, "horizontal value of " \o at(q)) : q \in 1..n}
            \cup If(Unwraps([q \in 1..n |-> line[q].y], [q \in 1..n |-> z(q).k]), "line " \o ToString(l) \o " is not the unwrapped phase")
            \cup If(line[1].y \in StartOf(z(1).k, o.data[1].k), "start of line " \o ToString(l))
      [] OTHER ->
            UNION {If(line[q].x = x(q) % P, "horizontal value of " \o at(q)) \cup If(line[q].y = Vertical(o.kind, z(q)), at(q)) : q \in 1..n}
PlotWhy(v) ==
    IF v.err # "" THEN {"plotting failed: " \o v.err}
    ELSE IF Len(v.out.lines) # LineCount(v.o.shape) THEN {"number of lines"}
    ELSE IF v.o.kind = "groupdelay"    \* the order of the lines is not part of the contract there
    THEN LET L == 1..Len(v.out.lines)
             fits == TLCEval([l \in L |-> {m \in L : LineWhy(v.o, v.out.lines[m], l) = {}}]) IN
         UNION {If(fits[l] # {}, "no line shows the delay of " \o ToString(l)) : l \in L}
         \cup UNION {If(\E l \in L : m \in fits[l], "line " \o ToString(m) \o " shows no delay of the data") : m \in L}
    ELSE UNION {LineWhy(v.o, v.out.lines[l], l) : l \in 1..Len(v.out.lines)}

(* --- texts: a plain axis does not scale ------------------------------------------------------------------------ *)
PreOf(pre, u, name) == IF pre = "{default} " THEN SweepName(u, name) \o " " ELSE pre
(* powers of ten the label stands for: a prefix or, when asked for, a power of ten *)
ExpsOf(w, u) == IF w.pform THEN (IF w.inner = UnitShown(u) THEN {w.power} ELSE {}) ELSE LabelExps(w.inner, u)
AxisWhy(w, us, pre, name, plain, pow) ==
    IF ~w.checked THEN {} ELSE
    LET fit == {u \in us : w.pre = PreOf(pre, u, name) /\ w.pform = pow /\ ExpsOf(w, u) # {}} IN
    IF fit = {} THEN {w.axis \o "-label does not carry the unit: " \o w.pre \o "[" \o Joined(w.inner) \o "]"}
    ELSE If(\E u \in fit : \E p \in ExpsOf(w, u) : TicksOk(w.ticks, p, w.locs, w.scale, plain), w.axis \o "-tick texts do not denote their values")
DrawWhy(v) == IF v.err # "" THEN {"drawing failed: " \o v.err}
              ELSE AxisWhy(v.out.x, ax.xu, ax.xpre, ax.name, FALSE, ax.xpow) \cup AxisWhy(v.out.y, ax.yu, ax.ypre, ax.name, ax.kind \in {"db", "db10"}, ax.ypow)
ArcWhy(v) == IF v.err # "" THEN {"arc failed: " \o v.err}
             ELSE If(IsCurve(v.out.points, v.o.which \in {"R", "G"}, v.o.fix, v.o.lo, v.o.hi), "the arc is not the curve asked for")
ChartWhy(v) == IF v.err # "" THEN {"chart failed: " \o v.err}
               ELSE If(ChartOk(v.out.curves, ChartCurves(v.o.mode, v.o.standard), v.o.mode = "full"), "the chart does not consist of its curves")
Explain(v) == CASE v.o.op = "arc" -> ArcWhy(v) [] v.o.op = "chart" -> ChartWhy(v) [] v.o.op = "plot" -> PlotWhy(v) [] v.o.op = "draw" -> DrawWhy(v) [] OTHER -> If(v.err = "", "failed: " \o v.err)
Init == i = 1 /\ bad = 0 /\ ax = NoAx
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN bad' = bad /\ ax' = NoAx
           ELSE LET why == Explain(v) IN
                /\ ax' = (CASE v.o.op = "axes" -> NewAx(v.o.kind) [] v.o.op = "plot" -> Plotted(ax, v.o) [] v.o.op \in {"fmt", "unit"} -> Relabelled(ax, v.o) [] OTHER -> ax)
                /\ IF why = {} THEN bad' = bad
                   ELSE PrintT("VIOL " \o ToJson([line |-> i, why |-> why])) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
