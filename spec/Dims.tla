------------------------------- MODULE Dims ---------------------------------
(* Dimensions as immutable values.  A dimension is                            *)
(*   [cls, name, nk, data, dk, unit, uk, fmt, typ]                            *)
(* nk, dk, uk are the same name, data and unit as sequences of numbers        *)
(* (character codes, scaled numbers), which is how order on text is           *)
(* expressible; typ is the type of the data ("int", "float", "text", "date",  *)
(* "none" when empty).                                                        *)
EXTENDS Arrays
VARIABLE dimheap

RECURSIVE SeqLt(_, _)
SeqLt(a, b) == IF b = <<>> THEN FALSE
               ELSE IF a = <<>> THEN TRUE
               ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE SeqLt(Tail(a), Tail(b))
DefaultFmt(typ) == CASE typ = "int" -> "%d" [] typ \in {"float", "none"} -> "%.16e" [] OTHER -> "%s"

(* equality: name, kind, data, unit *)
SameDim(a, b) == a.cls = b.cls /\ a.name = b.name /\ a.dk = b.dk /\ a.unit = b.unit
(* kind priority, then name: decided; the rest only has to be a strict total order *)
Below(a, b) == Prio(a.cls) < Prio(b.cls) \/ (Prio(a.cls) = Prio(b.cls) /\ SeqLt(a.nk, b.nk))
Tied(a, b) == Prio(a.cls) = Prio(b.cls) /\ a.nk = b.nk
(* one admissible completion (used to show that one exists) *)
RECURSIVE SeqSeqLt(_, _)
SeqSeqLt(a, b) == IF b = <<>> THEN FALSE
                  ELSE IF a = <<>> THEN TRUE
                  ELSE IF Head(a) # Head(b) THEN SeqLt(Head(a), Head(b)) ELSE SeqSeqLt(Tail(a), Tail(b))
ClsNum(c) == CHOOSE k \in 1..Cardinality(DOMAIN Parent) : LET RECURSIVE nth(_, _)
                 nth(S, n) == LET m == CHOOSE x \in S : TRUE IN IF n = 1 THEN m ELSE nth(S \ {m}, n - 1)
             IN nth(DOMAIN Parent, k) = c
TotalLt(a, b) == \/ Below(a, b)
                 \/ Tied(a, b) /\ ( \/ ClsNum(a.cls) < ClsNum(b.cls)
                                    \/ a.cls = b.cls /\ SeqSeqLt(a.dk, b.dk)
                                    \/ a.cls = b.cls /\ a.dk = b.dk /\ SeqLt(a.uk, b.uk) )

DiagOf(c) == CASE c \in {"IndepAxis", "DerivAxis"} -> "DiagAxis"
               [] c \in {"ComplexIndepAxis", "ComplexDerivAxis"} -> "ComplexDiagAxis"
               [] OTHER -> ""
Has(o, k) == k \in DOMAIN o
Derived(d, o) ==
    LET over == o.over IN
    [cls |-> o.cls,
     name |-> IF Has(over, "name") THEN over.name ELSE d.name,
     nk |-> IF Has(over, "name") THEN over.nk ELSE d.nk,
     data |-> IF Has(over, "data") THEN over.data ELSE d.data,
     dk |-> IF Has(over, "data") THEN over.dk ELSE d.dk,
     unit |-> IF Has(over, "unit") THEN over.unit ELSE d.unit,
     uk |-> IF Has(over, "unit") THEN over.uk ELSE d.uk,
     typ |-> IF Has(over, "data") THEN over.typ ELSE d.typ,
     fmt |-> IF Has(over, "fmt") THEN over.fmt ELSE d.fmt]
Sub(d, pos) == [d EXCEPT !.data = [k \in 1..Len(pos) |-> d.data[pos[k] + 1]],
                         !.dk = [k \in 1..Len(pos) |-> d.dk[pos[k] + 1]],
                         !.typ = IF Len(pos) = 0 THEN "none" ELSE @]
DimMeaning(h, o) ==
    CASE o.op = "new" -> Ok([o.dim EXCEPT !.fmt = IF @ = None THEN DefaultFmt(o.dim.typ) ELSE @])
      [] o.op = "derive" -> Ok(Derived(h[o.x], o))
      [] o.op = "slice" -> Ok(Sub(h[o.x], SliceIdx(Len(h[o.x].data), o.a, o.b, o.s)))
      [] o.op = "mask" -> Ok(Sub(h[o.x], SelectIdx(IotaFrom(0, Len(o.m)), LAMBDA k : o.m[k])))
      [] o.op = "indep" -> Ok(Kind(h[o.x], IndepOf(h[o.x].cls)))
      [] o.op = "deriv" -> Ok(Kind(h[o.x], DerivOf(h[o.x].cls)))
      [] o.op = "diag" -> Ok(Kind(h[o.x], DiagOf(h[o.x].cls)))
      [] o.op = "copy" -> Ok(h[o.x])
      [] o.op = "setattr" -> Err
      [] OTHER -> Ok(<<>>)              \* observations bind nothing
Observations == {"cmp", "lookup", "dedup", "poke", "mutsrc", "sort"}

(* ---- what observations have to say ------------------------------------- *)
DistinctCount(h, regs) == Cardinality({{s \in Range(regs) : SameDim(h[s], h[r])} : r \in Range(regs)})
CmpClauses(h, o, out) ==
    LET a == h[o.x] b == h[o.y] c == h[o.z] IN
    (IF out.eq # SameDim(a, b) THEN {"equality"} ELSE {})
    \cup (IF out.ne # ~SameDim(a, b) THEN {"inequality"} ELSE {})
    \cup (IF SameDim(a, b) /\ ~out.hasheq THEN {"equal dimensions hash differently"} ELSE {})
    \cup (IF ~Tied(a, b) /\ out.lt # Below(a, b) THEN {"order"} ELSE {})
    \cup (IF ~Tied(a, b) /\ out.gt # Below(b, a) THEN {"order"} ELSE {})
    \cup (IF SameDim(a, b) /\ (out.lt \/ out.gt) THEN {"equal dimensions are ordered"} ELSE {})
    \cup (IF ~SameDim(a, b) /\ out.lt = out.gt THEN {"unequal dimensions are not ordered one way"} ELSE {})
    \cup (IF out.lt /\ out.ltyz /\ ~out.ltxz THEN {"order is not transitive"} ELSE {})
LookupClauses(h, o, out) ==
    LET ds == [k \in 1..Len(o.regs) |-> h[o.regs[k]]]
        d == IF o.byname THEN [h[o.x] EXCEPT !.cls = "DimBase"] ELSE h[o.x]
        at == MatchIdx(ds, d)
    IN (IF out.contains # (at # 0) THEN {"membership"} ELSE {})
       \cup (IF ~o.byname /\ out.index # at THEN {"position of a matching dimension"} ELSE {})
       \cup (IF ~o.byname /\ out.get # at THEN {"matching dimension"} ELSE {})
SortClauses(h, o, out) ==
    (IF {out.order[k] : k \in 1..Len(out.order)} # Range(o.regs) \/ Len(out.order) # Len(o.regs) THEN {"sorting lost dimensions"} ELSE {})
    \cup (IF \E k \in 1..(Len(out.order) - 1) : Below(h[out.order[k + 1]], h[out.order[k]]) THEN {"sorted order"} ELSE {})
    \cup (IF \E k \in 1..Len(out.order) : ~SameDim(h[out.order[k]], h[out.order2[k]]) THEN {"sorting depends on the initial order"} ELSE {})
ObsClauses(h, o, out) ==
    CASE o.op = "cmp" -> CmpClauses(h, o, out)
      [] o.op = "lookup" -> LookupClauses(h, o, out)
      [] o.op = "dedup" -> IF out.n # DistinctCount(h, o.regs) THEN {"number of distinct dimensions"} ELSE {}
      [] o.op = "sort" -> SortClauses(h, o, out)
      [] OTHER -> {}
=============================================================================
