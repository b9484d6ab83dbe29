------------------------------ MODULE MCPlots -------------------------------
(* Bounded model of one axis: units come from data or the user, ticks are    *)
(* placed anywhere, and drawing chooses a prefix and writes label and ticks. *)
EXTENDS Plots, Json
CONSTANTS MaxOps, HistOn
VARIABLES unit, ticks, scale, label, texts, ops
vars == <<unit, ticks, scale, label, texts, ops>>
Units == {<<"V">>, <<"m">>, <<"H", "z">>}
(* ticks: integers, times ten to the scale *)
TickSets == { <<0, 5, 10>>, <<25, 50, 75>>, <<900, 950, 1000>>, <<-2, 0, 2>>, <<1, 200000>>, <<125, 250, 375>>, <<0>>, <<999, 1001>>, <<-1500, 1>> }
Init == unit = <<>> /\ ticks = <<>> /\ scale = 0 /\ label = [inner |-> <<>>] /\ texts = <<>> /\ ops = <<>>
MaxAbs(s) == MaxOf({AbsI(x) : x \in Range(s)})
Log10(n) == DigitCount(n) - 1
(* the power of ten for the label: that of the largest tick, in steps of three; 0 when the ticks have their own *)
Wide(s) == LET nz == {AbsI(x) : x \in Range(s)} \ {0} IN nz = {} \/ MaxOf(nz) > 10000 * MinOf(nz)
ExpOf(s, e) == LET q == Log10(MaxAbs(s)) + e IN q - (q % 3)
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<Digits[n + 1]>> ELSE Append(DigitsOf(n \div 10), Digits[(n % 10) + 1])
Padded(n, w) == LET d == DigitsOf(n) IN [k \in 1..Max2(0, w - Len(d)) |-> "0"] \o d
(* n * 10^e written with D decimals, rounded *)
Written(n, e, D) ==
    LET s == e + D
        a == IF s >= 0 THEN AbsI(n) * PowI(10, s) ELSE (AbsI(n) + PowI(10, -s) \div 2) \div PowI(10, -s)
        w == Padded(a, D + 1) k == Len(w) - D IN
    (IF n < 0 THEN <<"-">> ELSE <<>>) \o Take(w, k) \o (IF D = 0 THEN <<>> ELSE <<".">> \o Drop(w, k))
OwnText(n, e) == IF n = 0 THEN Written(0, 0, 2) ELSE LET p == ExpOf(<<n>>, e) IN Written(n, e - p, 2) \o <<" ">> \o WritePrefix(p, TRUE)
DoUnit == \E u \in Units : unit' = u /\ ops' = Append(ops, [op |-> "unit", unit |-> u, ticks |-> <<>>, scale |-> 0]) /\ UNCHANGED <<ticks, scale, label, texts>>
DoTicks == \E t \in TickSets, e \in {-9, -2, 0, 7} : ticks' = t /\ scale' = e /\ ops' = Append(ops, [op |-> "ticks", unit |-> <<>>, ticks |-> t, scale |-> e])
                                            /\ UNCHANGED <<unit, label, texts>>
DoDraw == /\ ticks # <<>>
          /\ LET wide == Wide(ticks) p == IF wide THEN 0 ELSE ExpOf(ticks, scale) IN
             /\ label' = [inner |-> WritePrefix(p, FALSE) \o UnitShown(unit)]
             /\ texts' = [q \in 1..Len(ticks) |-> IF wide THEN OwnText(ticks[q], scale) ELSE Written(ticks[q], scale - p, 3)]
          /\ ops' = Append(ops, [op |-> "draw", unit |-> <<>>, ticks |-> <<>>, scale |-> 0])
          /\ UNCHANGED <<unit, ticks, scale>>
Next == Len(ops) < MaxOps /\ (DoUnit \/ DoTicks \/ DoDraw)
Spec == Init /\ [][Next]_vars
Drawn == ops # <<>> /\ ops[Len(ops)].op = "draw"
InvTicks == Drawn => \E p \in LabelExps(label.inner, unit) : TicksOk(texts, p, ticks, scale, FALSE)
(* the label stands for one power of ten only, and no other prefix would do *)
InvOne == Drawn => /\ Cardinality(LabelExps(label.inner, unit)) = 1
                   /\ (MaxAbs(ticks) # 0 => \A e \in -8..8 : 3 * e \notin LabelExps(label.inner, unit) => ~TicksOk(texts, 3 * e, ticks, scale, FALSE))
Emit == (HistOn /\ Drawn) => PrintT("BEHAVIOUR " \o ToJson([ops |-> ops]))
View == <<unit, ticks, scale, label, texts, Len(ops), IF ops = <<>> THEN "" ELSE ops[Len(ops)].op>>
=============================================================================
