------------------------------- MODULE Plots --------------------------------
(* Axes of hftools.plotting: the lines drawn for labelled arrays and the     *)
(* texts at the axes.                                                        *)
(*   axes   [kind, xu, yu, name, xpre, ypre]: label units (sets of accepted  *)
(*          units, as characters), the name of what is swept, and the text   *)
(*          of the label before its unit                                     *)
(*   data   samples in row major order, sweep first; either [d, k] (see      *)
(*          Helpers) or [re, im] integers                                    *)
EXTENDS Helpers, SI

(* --- lines -------------------------------------------------------------------- *)
PhaseKinds == {"deg", "rad", "unwrapdeg", "unwraprad"}
Tens(d) == Pow10(d \div 20)
(* number of lines, and sample i of line l of n samples each *)
LineCount(shape) == Size(Tail(shape))
SampleAt(shape, l, i) == (i - 1) * LineCount(shape) + l
(* the vertical value of a sample *)
Vertical(kind, z) ==
    CASE kind = "db" -> z.d                            \* decibels
      [] kind = "db10" -> z.d                          \* twice the decibels of power
      [] kind = "mag" -> Tens(z.d) % P
      [] kind = "mag_square" -> Tens(2 * z.d) % P
      [] kind \in {"real", "x-si", "unity", "rectilinear"} -> z.re % P
      [] kind = "imag" -> z.im % P
PlainKinds == {"db", "db10", "mag", "mag_square", "real", "imag", "x-si", "unity", "rectilinear"}
PlaneKinds == {"cplx", "smith", "cpolar"}

(* --- texts at the axes --------------------------------------------------------- *)
DefaultUnit(kind) == IF kind \in {"db", "db10"} THEN <<"d", "B">> ELSE IF kind \in {"deg", "unwrapdeg"} THEN <<"deg">>
                     ELSE IF kind \in {"rad", "unwraprad"} THEN <<"r", "a", "d">> ELSE <<>>
(* kinds that show something in another unit than the data *)
OtherUnit(kind) == kind \in PhaseKinds \cup {"db", "db10", "mag_square", "groupdelay"}
SweepName(u, name) ==
    IF u = <<"H", "z">> THEN "Frequency" ELSE IF u \in {<<"s">>, <<"h">>, <<"m", "i", "n">>} THEN "Time" ELSE IF u = <<"m">> THEN "Length" ELSE name
UnitShown(u) == IF u = <<>> THEN <<"U">> ELSE u
(* the prefixes a label can carry, as characters and power of ten *)
LabelPrefixes == {<<WritePrefix(3 * e, FALSE), 3 * e>> : e \in -8..8}
TickPrefixes == LabelPrefixes \cup {<<WritePrefix(-6, TRUE), -6>>, <<<<"R">>, 27>>, <<<<"Q">>, 30>>, <<<<"r">>, -27>>, <<<<"q">>, -30>>}
(* powers of ten the text inside the brackets of a label stands for with unit u *)
LabelExps(inner, u) == {p[2] : p \in {p \in LabelPrefixes : inner = p[1] \o UnitShown(u)}}
(* a tick text: sign, digits as integer, power of ten of the last digit *)
TickText(s) ==
    LET neg == s # <<>> /\ Head(s) = "-"
        a == IF neg THEN Tail(s) ELSE s
        n1 == DigitRun(a)
        b == Drop(a, n1)
        dot == b # <<>> /\ Head(b) = "."
        c == IF dot THEN Tail(b) ELSE b
        n2 == IF dot THEN DigitRun(c) ELSE 0
        d == Drop(c, n2)
        hasE == d # <<>> /\ Head(d) = "e" /\ Len(d) > 2
        g == IF hasE THEN Drop(d, 2) ELSE <<>>
        n3 == DigitRun(g)
        exp == IF ~hasE THEN 0 ELSE (IF d[2] = "-" THEN -1 ELSE 1) * ValI(Take(g, n3), 0)
        r == LStrip(IF hasE THEN Drop(g, n3) ELSE d)
        pre == {p \in TickPrefixes : p[1] = r}
        ds == Take(a, n1) \o Take(c, n2)
        z == IF Len(ds) <= 9 THEN 0 ELSE Len(ds) - 9     \* a long text has to end in zeros
        ok == n1 > 0 /\ (\A q \in 1..z : ds[Len(ds) + 1 - q] = "0") /\ (r = <<>> \/ pre # {})
    IN [ok |-> ok, t |-> IF ok THEN (IF neg THEN -1 ELSE 1) * ValI(Take(ds, Len(ds) - z), 0) ELSE 0,
        e |-> exp - n2 + z + IF pre = {} THEN 0 ELSE (CHOOSE p \in pre : TRUE)[2],
        \* a text is rounded at its last digit but not before its second decimal
        f |-> IF hasE THEN exp - n2 ELSE (IF pre = {} THEN 0 ELSE (CHOOSE p \in pre : TRUE)[2]) - 2]
RECURSIVE DigitCount(_)
DigitCount(n) == IF n = 0 THEN 0 ELSE 1 + DigitCount(n \div 10)
(* a text denotes t * 10^e; it shows L * 10^E (L rounded, below 10^7) when it is within half of its last digit *)
Shows(t, e, L, E) ==
    LET s == e - E IN
    IF s >= 0 THEN IF t = 0 THEN s >= 8 \/ 2 * AbsI(L) <= PowI(10, s) + 2
                   ELSE DigitCount(AbsI(t)) + s <= 9 /\ 2 * AbsI(t * PowI(10, s) - L) <= PowI(10, s) + 2
    ELSE IF -s >= 9 THEN L = 0
    ELSE LET q == PowI(10, -s) IN AbsI((AbsI(t) \div q) * (IF t < 0 THEN -1 ELSE 1) - L) <= 1
ShowsTo(t, e, f, L, E) == IF e > f /\ DigitCount(AbsI(t)) + e - f <= 9 THEN Shows(t * PowI(10, e - f), f, L, E) ELSE Shows(t, e, L, E)
(* the ticks of an axis with a label that stands for 10^p *)
TicksOk(ts, p, Ls, E, plain) ==
    /\ Len(ts) = Len(Ls)
    /\ \A q \in 1..Len(ts) : LET k == TickText(ts[q]) IN k.ok /\ ShowsTo(k.t, k.e + p, k.f + p, Ls[q], E)
    /\ ((~plain /\ \E q \in 1..Len(Ls) : Ls[q] # 0) => \E q \in 1..Len(ts) : TickText(ts[q]).t # 0)

(* --- charts ---------------------------------------------------------------------- *)
(* points of a drawn curve: normalised impedance (or admittance) in 1/10000, or far  *)
(* away. A curve of constant real (R, G) or imaginary part (X, B) between two ends   *)
Near(a, b) == AbsI(a - b) <= 2 + (AbsI(b) \div 2000)
CurveOf(points, real, fix) == \A p \in Range(points) : p.far \/ Near(IF real THEN p.re ELSE p.im, fix)
Moving(p, real) == IF real THEN p.im ELSE p.re
Within(points, real, lo, hi) ==
    \A p \in Range(points) : p.far \/ ((lo.inf \/ Moving(p, real) >= lo.at - 2) /\ (hi.inf \/ Moving(p, real) <= hi.at + 2))
EndAt(p, real, e) == IF e.inf THEN p.far ELSE ~p.far /\ Near(Moving(p, real), e.at)
(* the curve reaches from one end to the other *)
Spans(points, real, lo, hi) ==
    LET n == Len(points) IN \/ EndAt(points[1], real, lo) /\ EndAt(points[n], real, hi)
                            \/ EndAt(points[1], real, hi) /\ EndAt(points[n], real, lo)
IsCurve(points, real, fix, lo, hi) == CurveOf(points, real, fix) /\ Within(points, real, lo, hi) /\ Spans(points, real, lo, hi)
Inf == [inf |-> TRUE, at |-> 0]
At(v) == [inf |-> FALSE, at |-> v]
(* the curves of a chart; the upper half shows positive reactance, negative susceptance *)
Thirds == {3333, 10000, 30000}
ChartCurves(mode, standard) ==
    LET pos == mode = "full" \/ (mode = "upper") = standard
        neg == mode = "full" \/ (mode = "lower") = standard IN
    {[real |-> TRUE, fix |-> r, lo |-> IF neg THEN Inf ELSE At(0), hi |-> IF pos THEN Inf ELSE At(0)] : r \in {0} \cup Thirds}
    \cup {[real |-> FALSE, fix |-> x, lo |-> At(0), hi |-> Inf] : x \in {0} \cup (IF pos THEN Thirds ELSE {}) \cup (IF neg THEN {-x : x \in Thirds} ELSE {})}
(* the outline may be drawn as a closed circle *)
Outline(points) == LET n == Len(points) IN CurveOf(points, TRUE, 0) /\ (points[1].far = points[n].far) /\ Near(points[1].im, points[n].im)
                                           /\ (\E p \in Range(points) : p.im > 0) /\ (\E p \in Range(points) : p.im < 0)
ChartOk(curves, want, full) ==
    /\ \A w \in want : \E q \in 1..Len(curves) : IsCurve(curves[q], w.real, w.fix, w.lo, w.hi)
    /\ \A q \in 1..Len(curves) : (full /\ Outline(curves[q])) \/ \E w \in want : IsCurve(curves[q], w.real, w.fix, w.lo, w.hi)
=============================================================================
