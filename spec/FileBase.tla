------------------------------ MODULE FileBase ------------------------------
(* What a file holds, for all file format specifications.  A number in a     *)
(* file is a record <<v, o, c, s, d>>:                                       *)
(*   v its value in GF(P), o its rank in size among the numbers of the file, *)
(*   c, s cosine and sine of it read as an angle in degrees,                 *)
(*   d    10^(v/20), it read as decibels   (-1: not defined).                *)
(* Values of variables and labels are texts: "re+im" (residues) for numbers, *)
(* "t:..." for text, "d:..." for dates.                                      *)
EXTENDS HFBase, TLC
NoUnit == "~"
V(x) == x[1]
Rank(x) == x[2]
(* "?" where a number has no exact value in the role it plays *)
Unknown == "?"
NumText(re, im) == IF re < 0 \/ im < 0 THEN Unknown ELSE ToString(re % P) \o "+" \o ToString(im % P)
RealText(r) == NumText(r, 0)
FDim(cls, name, data, unit) == [cls |-> cls, name |-> name, data |-> data, unit |-> unit]
FVar(name, kind, dims, vals, unit) == [n |-> name, kind |-> kind, dims |-> dims, vals |-> vals, unit |-> unit]
MatI(n) == FDim("DimMatrix_i", "i", [k \in 1..n |-> RealText(k - 1)], NoUnit)
MatJ(n) == FDim("DimMatrix_j", "j", [k \in 1..n |-> RealText(k - 1)], NoUnit)
(* a pair of numbers in one of the notations as real and imaginary part *)
Times(a, b) == IF a < 0 \/ b < 0 THEN -1 ELSE MulP(a, b)
Decoded(fmt, a, b) ==
    IF fmt = "RI" THEN <<V(a), V(b)>>
    ELSE IF fmt = "MA" THEN <<Times(V(a), b[3]), Times(V(a), b[4])>>
    ELSE <<Times(a[5], b[3]), Times(a[5], b[4])>>
CplxText(fmt, a, b) == LET z == Decoded(fmt, a, b) IN NumText(z[1], z[2])
(* --- comparison of an expected with an observed set of variables ---------- *)
ByName(vs, n) == LET h == {k \in 1..Len(vs) : vs[k].n = n} IN IF h = {} THEN 0 ELSE MinOf(h)
SameTexts(e, o) == Len(e) = Len(o) /\ \A k \in 1..Len(e) : e[k] = Unknown \/ e[k] = o[k]
DimWhy(e, o, n) ==
    IF Len(e) # Len(o) THEN {"number of dimensions of " \o n}
    ELSE UNION {(IF e[k].name # o[k].name \/ e[k].cls # o[k].cls THEN {"dimension " \o ToString(k) \o " of " \o n} ELSE {})
                \cup (IF ~SameTexts(e[k].data, o[k].data) THEN {"coordinates of " \o e[k].name} ELSE {})
                \cup (IF e[k].unit \notin {"?", o[k].unit} THEN {"unit of dimension " \o e[k].name} ELSE {}) : k \in 1..Len(e)}
VarWhy(e, o) == DimWhy(e.dims, o.dims, e.n)
    \cup (IF ~SameTexts(e.vals, o.vals) THEN {"values of " \o e.n} ELSE {})
    \cup (IF e.kind # "?" /\ e.kind # o.kind THEN {"data type of " \o e.n} ELSE {})
    \cup (IF e.unit # "?" /\ e.unit # o.unit THEN {"unit of " \o e.n} ELSE {})
(* Free: names that may be there without having been asked for *)
VarsWhy(es, os, Free) ==
    UNION {LET k == ByName(os, es[q].n) IN IF k = 0 THEN {"variable " \o es[q].n \o " is missing"} ELSE VarWhy(es[q], os[k]) : q \in 1..Len(es)}
    \cup {"unexpected variable " \o os[q].n : q \in {q \in 1..Len(os) : ByName(es, os[q].n) = 0 /\ os[q].n \notin Free}}
    \cup (IF \E a, b \in 1..Len(os) : a # b /\ os[a].n = os[b].n THEN {"a variable occurs twice"} ELSE {})
(* the dimensions the variables of a block have are the ones the block       *)
(* registers under these names (matrices of several sizes share i and j,     *)
(* columns repeated differently often share rep)                             *)
IvarsWhy(b) ==
    LET used == {d \in UNION {{b.vars[k].dims[q] : q \in 1..Len(b.vars[k].dims)} : k \in 1..Len(b.vars)} : d.cls \notin {"DimMatrix_i", "DimMatrix_j", "DimRep"}} IN
    UNION {LET reg == {b.ivars[k] : k \in {k \in 1..Len(b.ivars) : b.ivars[k].name = d.name}} IN
           (IF reg = {} THEN {"dimension " \o d.name \o " is not registered"} ELSE {})
           \cup (IF \E r \in reg : r.cls # d.cls \/ r.data # d.data \/ r.unit # d.unit THEN {"registered dimension " \o d.name} ELSE {}) : d \in used}
=============================================================================
