--------------------------------- MODULE SI ---------------------------------
(* Quantities in SI units, on the level of characters.  A text is a sequence *)
(* of one-character strings.  Numbers are elements of GF(P) (see HFBase);    *)
(* formatting is described with integers.                                    *)
EXTENDS HFBase, TLC
NoUnit == "~"
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == c \in Range(Digits)
DigitVal(c) == FirstIdx(Digits, LAMBDA x : x = c) - 1
IsSpace(c) == c \in {" ", "\t"}
(* name, power of ten *)
Prefixes == {<<"d", -1>>, <<"c", -2>>, <<"m", -3>>, <<"u", -6>>, <<"n", -9>>, <<"p", -12>>, <<"f", -15>>, <<"a", -18>>,
             <<"k", 3>>, <<"M", 6>>, <<"G", 9>>, <<"T", 12>>, <<"P", 15>>, <<"E", 18>>}
UnitNames == {<<"H", "z">>, <<"s">>, <<"S">>, <<"O", "h", "m">>, <<"m">>, <<"V">>, <<"A">>, <<"F">>, <<"W">>}
(* the prefixes used for writing, by power of ten *)
WritePrefix(e, greek) ==
    CASE e = 0 -> <<>> [] e = 3 -> <<"k">> [] e = 6 -> <<"M">> [] e = 9 -> <<"G">> [] e = 12 -> <<"T">> [] e = 15 -> <<"P">>
      [] e = 18 -> <<"E">> [] e = 21 -> <<"Z">> [] e = 24 -> <<"Y">> [] e = -3 -> <<"m">>
      [] e = -6 -> (IF greek THEN <<"mu">> ELSE <<"u">>)
      [] e = -9 -> <<"n">> [] e = -12 -> <<"p">> [] e = -15 -> <<"f">> [] e = -18 -> <<"a">> [] e = -21 -> <<"z">> [] e = -24 -> <<"y">>
Pow10(e) == IF e >= 0 THEN PowP(10, e) ELSE InvP(PowP(10, -e))
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE Head(s) \o Joined(Tail(s))
RECURSIVE LStrip(_)
LStrip(s) == IF s # <<>> /\ IsSpace(Head(s)) THEN LStrip(Tail(s)) ELSE s
RStrip(s) == Rev(LStrip(Rev(s)))
Strip(s) == RStrip(LStrip(s))

(* --- units ---------------------------------------------------------------- *)
(* power of ten and base unit of a unit *)
UnitOf(u) ==
    IF u = <<>> THEN [e |-> 0, unit |-> NoUnit]
    ELSE IF u = <<"%">> THEN [e |-> -2, unit |-> NoUnit]
    ELSE IF u = <<"#">> THEN [e |-> 0, unit |-> NoUnit]
    ELSE IF Len(u) >= 2 /\ Tail(u) \in UnitNames /\ \E p \in Prefixes : p[1] = Head(u)
         THEN [e |-> (CHOOSE p \in Prefixes : p[1] = Head(u))[2], unit |-> Joined(Tail(u))]
    ELSE [e |-> 0, unit |-> Joined(u)]

(* --- numbers -------------------------------------------------------------- *)
RECURSIVE DigitRun(_)
DigitRun(s) == IF s # <<>> /\ IsDigit(Head(s)) THEN 1 + DigitRun(Tail(s)) ELSE 0
RECURSIVE ValP(_, _)
ValP(s, acc) == IF s = <<>> THEN acc ELSE ValP(Tail(s), AddP(MulP(acc, 10), DigitVal(Head(s))))
RECURSIVE ValI(_, _)
ValI(s, acc) == IF s = <<>> THEN acc ELSE ValI(Tail(s), acc * 10 + DigitVal(Head(s)))
(* the number a text starts with: value, sign, and what follows it *)
Number(s) ==
    LET neg == s # <<>> /\ Head(s) = "-"
        a == IF s # <<>> /\ Head(s) \in {"-", "+"} THEN Tail(s) ELSE s
        n1 == DigitRun(a)
        b == Drop(a, n1)
        dot == b # <<>> /\ Head(b) = "."
        c == IF dot THEN Tail(b) ELSE b
        n2 == IF dot THEN DigitRun(c) ELSE 0
        d == Drop(c, n2)
        hasE == d # <<>> /\ Head(d) \in {"e", "E"}
        f == IF hasE THEN Tail(d) ELSE d
        eneg == f # <<>> /\ Head(f) = "-"
        g == IF hasE /\ f # <<>> /\ Head(f) \in {"-", "+"} THEN Tail(f) ELSE f
        n3 == IF hasE THEN DigitRun(g) ELSE 0
        exp == IF n3 = 0 THEN 0 ELSE (IF eneg THEN -1 ELSE 1) * ValI(Take(g, n3), 0)
        man == ValP(Take(a, n1) \o Take(c, n2), 0)
        v == MulP(man, Pow10(exp - n2))
    IN IF n1 + n2 = 0 THEN [ok |-> FALSE, v |-> 0, rest |-> s]
       ELSE [ok |-> TRUE, v |-> IF neg THEN NegP(v) ELSE v, rest |-> IF n3 = 0 THEN d ELSE Drop(g, n3)]
UnitChar(c) == ~IsSpace(c) /\ ~IsDigit(c) /\ c \notin {"[", "]", "(", ")", ",", ".", ":", "+", "-", "=", ";", "*"}
(* the text of a unit after a number *)
UnitText(r) ==
    LET s == Strip(r) IN
    IF s = <<>> THEN [ok |-> TRUE, u |-> <<>>]
    ELSE IF Len(s) >= 3 /\ Head(s) = "[" /\ s[Len(s)] = "]" /\ \A k \in 2..(Len(s) - 1) : UnitChar(s[k])
         THEN [ok |-> TRUE, u |-> SubSeq(s, 2, Len(s) - 1)]
    ELSE [ok |-> \A k \in 1..Len(s) : UnitChar(s[k]), u |-> s]
(* a number with unit, read *)
Quantity(t) ==
    LET n == Number(LStrip(t)) u == UnitText(n.rest) IN
    IF ~n.ok \/ ~u.ok THEN [ok |-> FALSE, v |-> 0, unit |-> NoUnit]
    ELSE LET m == UnitOf(u.u) IN [ok |-> TRUE, v |-> MulP(n.v, Pow10(m.e)), unit |-> m.unit]

(* --- writing with prefixes ------------------------------------------------- *)
(* a value is sign, integer d > 0 and power of ten x:  d * 10^x  (d = 0: zero) *)
RECURSIVE NDigits(_)
NDigits(d) == IF d < 10 THEN 1 ELSE 1 + NDigits(d \div 10)
Order10(d, x) == IF d = 0 THEN 0 ELSE NDigits(d) - 1 + x
Floor3(e) == e - (e % 3)
(* mantissa times 10^digs, rounded *)
Scaled(d, x, e3, digs) ==
    LET s == x - e3 + digs IN
    IF d = 0 THEN 0 ELSE IF s >= 0 THEN d * PowI(10, s)
    ELSE LET q == PowI(10, -s) IN (d + q \div 2) \div q
RECURSIVE ZeroFill(_, _)
ZeroFill(s, n) == IF Len(s) >= n THEN s ELSE ZeroFill(<<"0">> \o s, n)
RECURSIVE IntText(_)
IntText(d) == IF d < 10 THEN <<Digits[d + 1]>> ELSE IntText(d \div 10) \o <<Digits[(d % 10) + 1]>>
FixedText(m, digs) ==
    LET s == ZeroFill(IntText(m), digs + 1) IN
    IF digs = 0 THEN s ELSE Take(s, Len(s) - digs) \o <<".">> \o Drop(s, Len(s) - digs)
Formatted(neg, d, x, digs, unit, greek) ==
    LET e3 == Floor3(Order10(d, x)) IN
    (IF neg /\ d # 0 THEN <<"-">> ELSE <<>>) \o FixedText(Scaled(d, x, e3, digs), digs) \o <<" ">> \o WritePrefix(e3, greek) \o unit
(* half way between two roundings *)
Tie(d, x, digs) == LET s == x - Floor3(Order10(d, x)) + digs IN d # 0 /\ s < 0 /\ 2 * (d % PowI(10, -s)) = PowI(10, -s)
=============================================================================
