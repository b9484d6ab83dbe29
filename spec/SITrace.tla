------------------------------ MODULE SITrace -------------------------------
(* Recorded uses of hftools.constants.si_units.                              *)
EXTENDS SI, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
If(b, t) == IF b THEN {} ELSE {t}
OutWhy(q, v) ==
    IF ~q.ok THEN If(v.err = "ValueError", "text that is no quantity is not refused")
    ELSE IF v.err # "" THEN {"a quantity is refused: " \o v.err}
    ELSE If(v.out.v = q.v, "value") \cup If(v.out.unit = q.unit, "unit")
(* value given on its own: only a number will do *)
Alone(u, t) == LET n == Number(Strip(t)) m == UnitOf(u) IN
    [ok |-> n.ok /\ n.rest = <<>>, v |-> MulP(n.v, Pow10(m.e)), unit |-> m.unit]
Explain(v) ==
    LET o == v.o IN
    CASE o.op = "mult" -> (LET m == UnitOf(Strip(o.u)) IN
            IF v.err # "" THEN {"unit is refused: " \o v.err}
            ELSE If(v.out.v = Pow10(m.e), "factor of the unit") \cup If(v.out.unit = m.unit, "base unit"))
      [] o.op = "value" -> OutWhy(Quantity(o.text), v)
      [] o.op = "conv" -> OutWhy(Alone(Strip(o.u), o.text), v)
      [] o.op = "const" -> (LET m == UnitOf(o.u) IN If(v.err = "" /\ v.out.v = Pow10(m.e), "constant " \o Joined(o.u)))
      [] o.op = "fmt" -> (IF v.err # "" THEN {"value is not written: " \o v.err}
                          ELSE If(v.out.text = Formatted(o.neg, o.d, o.x, o.digs, o.unit, o.greek), "text of a value"))
Init == i = 1 /\ bad = 0
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN bad' = bad
           ELSE LET why == Explain(v) IN
                IF why = {} THEN bad' = bad
                ELSE PrintT("VIOL " \o ToJson([line |-> i, why |-> why])) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
