-------------------------------- MODULE MCSI --------------------------------
(* Bounded model: a quantity is written character by character by a writer   *)
(* that knows its value; reading finds it.  And values written with prefixes *)
(* denote themselves.                                                        *)
EXTENDS SI, Json
CONSTANTS MaxDigits, HistOn
VARIABLES text, val, stage, frac, exps, unit
vars == <<text, val, stage, frac, exps, unit>>
(* val: <<sign, integer mod P, decimals>>; stages: sign, int, frac, exp, unit, done *)
Init == /\ text \in {<<>>, <<"-">>, <<"+">>, <<" ">>} /\ val = 0 /\ stage = "int" /\ frac = 0 /\ exps = 0 /\ unit = <<>>
Len1 == Cardinality({k \in 1..Len(text) : IsDigit(text[k])})
Digit == /\ stage \in {"int", "frac"} /\ Len1 < MaxDigits
         /\ \E d \in {"0", "7", "9"} : text' = Append(text, d) /\ val' = AddP(MulP(val, 10), DigitVal(d))
         /\ frac' = IF stage = "frac" THEN frac + 1 ELSE frac
         /\ UNCHANGED <<stage, exps, unit>>
Dot == stage = "int" /\ stage' = "frac" /\ text' = Append(text, ".") /\ UNCHANGED <<val, frac, exps, unit>>
Exp == /\ stage \in {"int", "frac"} /\ Len1 > 0
       /\ \E e \in {"e", "E"}, x \in {<<<<"3">>, 3>>, <<<<"-", "6">>, -6>>, <<<<"+", "0", "1", "1">>, 11>>, <<<<"1", "0">>, 10>>} :
            text' = Append(text, e) \o x[1] /\ exps' = x[2]
       /\ stage' = "exp" /\ UNCHANGED <<val, frac, unit>>
Units == {<<"H", "z">>, <<"V">>, <<"%">>, <<"d", "B", "m">>, <<"O", "h", "m">>} \cup {<<p[1]>> \o <<"V">> : p \in Prefixes} \cup {<<"m", "i", "n">>, <<"m">>, <<"d", "B", "/", "G", "H", "z">>}
Unit == /\ stage \in {"int", "frac", "exp"} /\ Len1 > 0
        /\ \E u \in Units, s \in {<<>>, <<" ">>}, br \in BOOLEAN :
             text' = text \o s \o (IF br THEN <<"[">> \o u \o <<"]">> ELSE u) /\ unit' = u
        /\ stage' = "done" /\ UNCHANGED <<val, frac, exps>>
Next == Digit \/ Dot \/ Exp \/ Unit
Spec == Init /\ [][Next]_vars
Truth == LET v == MulP(MulP(val, Pow10(exps - frac)), Pow10(UnitOf(unit).e)) IN IF text # <<>> /\ Head(text) = "-" THEN NegP(v) ELSE v
InvRead == Len1 > 0 => Quantity(text) = [ok |-> TRUE, v |-> Truth, unit |-> UnitOf(unit).unit]
InvNone == Len1 = 0 => ~Quantity(text).ok
(* writing with prefixes: the text read again is the value rounded to the digits, mantissa from 1 to 1000 *)
InvWrite == (stage = "int" /\ text = <<>>) =>
    \A d \in {0, 1, 9, 12, 999, 1000, 12345, 99995, 654321}, x \in -24..20, digs \in 0..4, neg \in BOOLEAN :
        (Order10(d, x) <= 26 /\ Order10(d, x) >= -24 /\ (digs + 3 < 9)) =>
        LET t == Formatted(neg, d, x, digs, <<>>, FALSE)
            e3 == Floor3(Order10(d, x))
            n == Number(t)
            sc == Scaled(d, x, e3, digs)
        IN /\ n.ok /\ n.v = MulP(IF neg /\ d # 0 THEN NegP(sc) ELSE sc, Pow10(-digs))
           /\ Tail(n.rest) = WritePrefix(e3, FALSE)
           /\ d # 0 => sc >= PowI(10, digs) /\ sc <= PowI(10, digs + 3)
           /\ (x - e3 + digs >= 0) => MulP(sc, Pow10(e3 - digs)) = MulP(d, Pow10(x))
Emit == (HistOn /\ Len1 > 0) => PrintT("BEHAVIOUR " \o ToJson([text |-> text]))
=============================================================================
