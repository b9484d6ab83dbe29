------------------------------ MODULE Columns -------------------------------
(* How imported columns and comments become variables.  A column name is     *)
(*   [fn, base, i, j, br, sp, unit, alpha]                                   *)
(* written  fn(base i j) sp [unit] ; i = -1: no matrix indices; br: the      *)
(* indices are written [i,j]; alpha: base consists of letters; unit: chars.  *)
(* A column is [nm, kind, dims, vals, unit]: values are <<re, im>> for       *)
(* numbers and texts for text and dates; row-major over the sweeps and dims. *)
EXTENDS FileBase, SI
Idx(nm) == IF nm.i < 0 THEN "" ELSE IF nm.br THEN "[" \o ToString(nm.i) \o "," \o ToString(nm.j) \o "]" ELSE ToString(nm.i) \o ToString(nm.j)
Core(nm) == nm.base \o Idx(nm)
Bare(nm) == IF nm.fn = "" THEN Core(nm) ELSE nm.fn \o "(" \o Core(nm) \o ")"
Suffix(nm) == IF nm.unit = <<>> THEN "" ELSE nm.sp \o "[" \o Joined(nm.unit) \o "]"
TextOf(nm) == Bare(nm) \o Suffix(nm)
Plain(base) == [fn |-> "", base |-> base, i |-> -1, j |-> -1, br |-> FALSE, sp |-> "", unit |-> <<>>, alpha |-> TRUE]
NoFn(nm) == [nm EXCEPT !.fn = ""]
NoUnitNm(nm) == [nm EXCEPT !.unit = <<>>, !.sp = ""]

(* a block: [xs |-> sweeps [nm, vals, unit, num], cols |-> columns]; columns extend over all sweeps *)
Names(b) == {TextOf(b.xs[k].nm) : k \in 1..Len(b.xs)} \cup {TextOf(b.cols[k].nm) : k \in 1..Len(b.cols)}
ColIdx(b, t) == FirstIdx(b.cols, LAMBDA c : TextOf(c.nm) = t)
HasCol(b, t) == ColIdx(b, t) # 0
DropCols(cols, I) == SelectIdx(cols, LAMBDA k : k \notin I)

(* --- pairs of columns to complex ------------------------------------------- *)
NTimes(a, b) == IF a < 0 \/ b < 0 THEN -1 ELSE MulP(a, b)
(* partner: the other column of a pair; for Re/Im the unit agrees *)
FirstOf(fn) == CASE fn = "RI" -> "Re" [] fn = "MA" -> "Mag"
SecondOf(fn) == CASE fn = "RI" -> "Im" [] fn = "MA" -> "Arg"
PairFor(b, k, fmt) ==
    LET c == b.cols[k]
        hits == {q \in 1..Len(b.cols) : /\ b.cols[q].nm.fn = SecondOf(fmt) /\ Core(b.cols[q].nm) = Core(c.nm)
                                        /\ (fmt = "RI" => b.cols[q].nm.unit = c.nm.unit)}
    IN IF c.nm.fn = FirstOf(fmt) /\ hits # {} /\ Core(c.nm) \notin Names(b) /\ TextOf(NoFn(c.nm)) \notin Names(b) THEN MinOf(hits) ELSE 0
Joint(fmt, c, d) ==
    [c EXCEPT !.nm = NoFn(c.nm), !.kind = "c",
              !.vals = [q \in 1..Len(c.vals) |-> Decoded(fmt, c.raws[q], d.raws[q])]]
RECURSIVE Paired(_, _)
Paired(b, k) ==
    IF k > Len(b.cols) THEN b
    ELSE LET r == PairFor(b, k, "RI")
             m == IF r # 0 \/ \E q \in 1..Len(b.cols) : PairFor(b, q, "RI") # 0 /\ Core(b.cols[q].nm) = Core(b.cols[k].nm) THEN 0 ELSE PairFor(b, k, "MA")
         IN IF r # 0 THEN Paired([b EXCEPT !.cols = Append(DropCols(@, {k, r}), Joint("RI", b.cols[k], b.cols[r]))], 1)
            ELSE IF m # 0 THEN Paired([b EXCEPT !.cols = Append(DropCols(@, {k, m}), Joint("MA", b.cols[k], b.cols[m]))], 1)
            ELSE Paired(b, k + 1)

(* --- units ------------------------------------------------------------------ *)
Volts == {"Vds", "Vgs", "Vdg", "Vgd", "vds", "vgs", "VDS", "VGS", "Vbe", "Vce", "VDS_SET", "VGS_SET"}
Amps == {"Id", "Ig", "Is", "ID", "IG", "id", "ig", "is", "Ib", "Ie", "Ic"}
Hertz == {"freq", "Freq", "FREQ", "f", "F", "frequency", "Frequency", "FREQUENCY"}
Guess(t) == IF t \in Volts THEN "V" ELSE IF t \in Amps THEN "A" ELSE IF t \in Hertz THEN "Hz" ELSE NoUnit
Scale(vals, e) == [q \in 1..Len(vals) |-> <<NTimes(vals[q][1], Pow10(e)), NTimes(vals[q][2], Pow10(e))>>]
FixX(b, k) == IF b.xs[k].nm.unit = <<>> \/ TextOf(NoUnitNm(b.xs[k].nm)) \in Names(b) THEN b
              ELSE LET u == UnitOf(b.xs[k].nm.unit) IN
                   [b EXCEPT !.xs[k] = [@ EXCEPT !.nm = NoUnitNm(@), !.unit = u.unit, !.vals = IF b.xs[k].num THEN Scale(@, u.e) ELSE @]]
RECURSIVE FixXs(_, _)
FixXs(b, k) == IF k > Len(b.xs) THEN b ELSE FixXs(FixX(b, k), k + 1)
FixCol(b, k) == IF b.cols[k].nm.unit = <<>> \/ TextOf(NoUnitNm(b.cols[k].nm)) \in Names(b) THEN b
                ELSE LET u == UnitOf(b.cols[k].nm.unit) IN
                     [b EXCEPT !.cols[k] = [@ EXCEPT !.nm = NoUnitNm(@), !.unit = u.unit,
                                                    !.vals = IF b.cols[k].kind \in {"n", "c"} THEN Scale(@, u.e) ELSE @]]
RECURSIVE FixFrom(_, _)
FixFrom(b, k) == IF k > Len(b.cols) THEN b ELSE FixFrom(FixCol(b, k), k + 1)
GuessU(unit, t) == IF unit = NoUnit THEN Guess(t) ELSE unit
Guessed(b) == [b EXCEPT !.xs = [k \in 1..Len(b.xs) |-> [b.xs[k] EXCEPT !.unit = GuessU(@, TextOf(b.xs[k].nm))]],
                        !.cols = [k \in 1..Len(b.cols) |-> [b.cols[k] EXCEPT !.unit = GuessU(@, TextOf(b.cols[k].nm))]]]
WithUnits(b) == FixFrom(FixXs(Guessed(b), 1), 1)

(* --- names -------------------------------------------------------------------- *)
El(base, i, j) == [Plain(base) EXCEPT !.i = i, !.j = j]
Table == <<<<"b1/a1 raw", El("b", 1, 1)>>, <<"b1/a2 raw", El("b", 1, 2)>>, <<"b2/a1 raw", El("b", 2, 1)>>, <<"b2/a2 raw", El("b", 2, 2)>>,
           <<"a1 raw", El("a", 1, 1)>>, <<"a1/a2 raw", El("a", 1, 2)>>, <<"a2/a1 raw", El("a", 2, 1)>>, <<"a2 raw", El("a", 2, 2)>>,
           <<"b1/a1", El("b", 1, 1)>>, <<"b1/a2", El("b", 1, 2)>>, <<"b2/a1", El("b", 2, 1)>>, <<"b2/a2", El("b", 2, 2)>>,
           <<"a1", El("a", 1, 1)>>, <<"a1/a2", El("a", 1, 2)>>, <<"a2/a1", El("a", 2, 1)>>, <<"a2", El("a", 2, 2)>>,
           <<"Freq[Hz]", Plain("freq")>>, <<"Frequency", Plain("freq")>>, <<"Freq", Plain("freq")>>>>
Rename(b, old, nm) ==
    IF TextOf(nm) \in Names(b) THEN b
    ELSE IF \E k \in 1..Len(b.xs) : TextOf(b.xs[k].nm) = old
         THEN [b EXCEPT !.xs[CHOOSE k \in 1..Len(b.xs) : TextOf(b.xs[k].nm) = old].nm = nm]
    ELSE IF HasCol(b, old) THEN [b EXCEPT !.cols[ColIdx(b, old)].nm = nm] ELSE b
RECURSIVE Renamed(_, _)
Renamed(b, k) == IF k > Len(Table) THEN b ELSE Renamed(Rename(b, Table[k][1], Table[k][2]), k + 1)
(* Mean(x) is x, Std(x) is s_x; refused when that name is taken *)
Stat(nm) == IF nm.unit # <<>> THEN nm ELSE IF nm.fn = "Mean" THEN NoFn(nm)
            ELSE IF nm.fn = "Std" THEN [NoFn(nm) EXCEPT !.base = "s_" \o nm.base] ELSE nm
Stats(b, fn) == [b EXCEPT !.cols = [k \in 1..Len(b.cols) |-> IF b.cols[k].nm.fn = fn THEN [b.cols[k] EXCEPT !.nm = Stat(@)] ELSE b.cols[k]]]
Dup(b) == Cardinality(Names(b)) < Len(b.cols) + Len(b.xs)
Normal(b) == LET r == Renamed(b, 1) m == Stats(r, "Mean") s == Stats(m, "Std") IN
             IF Dup(m) \/ Dup(s) THEN [ok |-> FALSE, b |-> r] ELSE [ok |-> TRUE, b |-> s]

(* --- matrices ------------------------------------------------------------------ *)
ElemOf(c, base, br) == c.nm.fn = "" /\ c.nm.unit = <<>> /\ c.nm.alpha /\ c.nm.i >= 0 /\ c.nm.base = base /\ c.nm.br = br
RECURSIVE SortedInts(_)
SortedInts(S) == IF S = {} THEN <<>> ELSE <<MinOf(S)>> \o SortedInts(S \ {MinOf(S)})
Gathered(b, base, br) ==
    LET I == {k \in 1..Len(b.cols) : ElemOf(b.cols[k], base, br)}
        rows == SortedInts({b.cols[k].nm.i : k \in I})
        colsx == SortedInts({b.cols[k].nm.j : k \in I})
        full == Cardinality(I) > 1 /\ Cardinality(I) = Len(rows) * Len(colsx)
        at(r, c) == b.cols[CHOOSE k \in I : b.cols[k].nm.i = rows[r] /\ b.cols[k].nm.j = colsx[c]]
        one == b.cols[MinOf(I)]
        N == Len(one.vals) R == Len(rows) C == Len(colsx)
        us == {b.cols[k].unit : k \in I}
        mat == [one EXCEPT !.nm = Plain(base), !.kind = IF \E k \in I : b.cols[k].kind = "c" THEN "c" ELSE one.kind,
                           !.dims = one.dims \o <<MatI(R), MatJ(C)>>,
                           !.unit = IF Cardinality(us) = 1 THEN one.unit ELSE NoUnit,
                           !.vals = [q \in 1..N * R * C |-> LET ix == Unravel(q - 1, <<N, R, C>>) IN at(ix[2] + 1, ix[3] + 1).vals[ix[1] + 1]]]
    IN IF I = {} \/ ~full \/ base \in Names(b) THEN b
       ELSE [b EXCEPT !.cols = Append(DropCols(@, I), mat)]
Bases(b, br) == {b.cols[k].nm.base : k \in {k \in 1..Len(b.cols) : ElemOf(b.cols[k], b.cols[k].nm.base, br)}}
RECURSIVE GatherAll(_, _, _)
GatherAll(b, S, br) == IF S = {} THEN b ELSE LET x == CHOOSE x \in S : TRUE IN GatherAll(Gathered(b, x, br), S \ {x}, br)

(* --- the whole way ---------------------------------------------------------------- *)
Opt(on, old, new) == IF on THEN new ELSE old
(* flags: [cplx, unit, norm, mat]; brs: forms of element names; props: columns from comments, added unless their name is taken *)
Interpreted(b0, flags, brs, props) ==
    LET ba == IF flags.cplx THEN TLCEval(Paired(b0, 1)) ELSE b0
        b1 == [ba EXCEPT !.cols = @ \o SelectSeq(props, LAMBDA c : TextOf(c.nm) \notin Names(ba))]
        b2 == IF flags.unit THEN TLCEval(WithUnits(b1)) ELSE b1
        n == IF flags.norm THEN TLCEval(Normal(b2)) ELSE [ok |-> TRUE, b |-> b2]
        b4 == IF ~n.ok \/ ~flags.mat THEN n.b
              ELSE LET g == IF TRUE \in brs THEN GatherAll(n.b, Bases(n.b, TRUE), TRUE) ELSE n.b IN GatherAll(g, Bases(g, FALSE), FALSE)
    IN [ok |-> n.ok, b |-> b4]
ValText(kind, v) == IF kind \in {"n", "c"} THEN NumText(v[1], v[2]) ELSE v
XDim(x) == FDim("DimSweep", TextOf(x.nm), [q \in 1..Len(x.vals) |-> ValText(IF x.num THEN "n" ELSE "t", x.vals[q])], x.unit)
XDims(b) == [k \in 1..Len(b.xs) |-> XDim(b.xs[k])]
ColVar(b, c) == FVar(TextOf(c.nm), c.kind, (IF c.sc THEN <<>> ELSE XDims(b)) \o c.dims, [q \in 1..Len(c.vals) |-> ValText(c.kind, c.vals[q])], c.unit)
ColVars(b) == [k \in 1..Len(b.cols) |-> ColVar(b, b.cols[k])]

(* --- comments ------------------------------------------------------------------------ *)
(* a comment with a property is [n |-> name, u |-> unit chars or <<"?">> for none, v |-> value chars] *)
TwoDigits(s, k) == Len(s) > k /\ IsDigit(s[k]) /\ IsDigit(s[k + 1])
Int2(s, k) == DigitVal(s[k]) * 10 + DigitVal(s[k + 1])
IsDate(s) == Len(s) >= 10 /\ TwoDigits(s, 1) /\ TwoDigits(s, 3) /\ s[5] = "-" /\ TwoDigits(s, 6) /\ s[8] = "-" /\ TwoDigits(s, 9)
             /\ Int2(s, 6) \in 1..12 /\ Int2(s, 9) \in 1..28
IsTime(s) == /\ Len(s) \in {5, 8} /\ TwoDigits(s, 1) /\ s[3] = ":" /\ TwoDigits(s, 4) /\ Int2(s, 1) \in 0..23 /\ Int2(s, 4) \in 0..59
             /\ Len(s) = 8 => (s[6] = ":" /\ TwoDigits(s, 7) /\ Int2(s, 7) \in 0..59)
DateText(s) ==
    LET d == Take(s, 10) r == LStrip(Drop(s, 10)) IN
    IF ~IsDate(s) THEN [ok |-> FALSE, t |-> ""]
    ELSE IF Len(s) = 10 THEN [ok |-> TRUE, t |-> Joined(d)]
    ELSE IF Len(r) < Len(s) - 10 /\ IsTime(r) THEN [ok |-> TRUE, t |-> Joined(d) \o "T" \o Joined(r)] ELSE [ok |-> FALSE, t |-> ""]
NoPropUnit == <<"?">>
Property(c) ==
    LET s == Strip(c.v) q == Quantity(s) d == DateText(s) n == Number(s) u == UnitOf(Strip(c.u)) IN
    IF c.u # NoPropUnit
    THEN (IF n.ok /\ n.rest = <<>> THEN [kind |-> "n", val |-> RealText(MulP(n.v, Pow10(u.e))), v |-> MulP(n.v, Pow10(u.e)), unit |-> u.unit]
          ELSE [kind |-> "t", val |-> "t:" \o Joined(s), unit |-> NoUnit])
    ELSE IF q.ok THEN [kind |-> "n", val |-> RealText(q.v), v |-> q.v, unit |-> q.unit]
    ELSE IF d.ok THEN [kind |-> "d", val |-> "d:" \o d.t, unit |-> NoUnit]
    ELSE [kind |-> "t", val |-> "t:" \o Joined(s), unit |-> NoUnit]
(* ... as a column without dimensions; numbers have the text "re+im" already *)
PropCol(c) == LET p == Property(c) IN [nm |-> [Plain(c.n) EXCEPT !.alpha = FALSE], kind |-> p.kind, sc |-> TRUE, dims |-> <<>>,
                                       vals |-> <<IF p.kind = "n" THEN <<p.v, 0>> ELSE p.val>>, raws |-> <<>>, unit |-> p.unit]
PropVar(c) == LET p == Property(c) IN FVar(c.n, p.kind, <<>>, <<p.val>>, p.unit)
(* the last comment with a name counts *)
LastOnes(cs) == SelectIdx(cs, LAMBDA k : \A q \in (k + 1)..Len(cs) : cs[q].n # cs[k].n)
PropCols(cs) == LET l == LastOnes(cs) IN [k \in 1..Len(l) |-> PropCol(l[k])]
PropVars(cs) == LET l == LastOnes(cs) IN [k \in 1..Len(l) |-> PropVar(l[k])]
=============================================================================
