-------------------------------- MODULE MCSp --------------------------------
(* Bounded model: a measurement program steps two parameters and writes one  *)
(* table for every setting; whatever the order of the settings, each value   *)
(* is found again under the parameters and the sweep point it was taken at.  *)
EXTENDS Sp, Json
CONSTANTS MaxTables, MaxRows, HistOn
VARIABLES rows, pars, form, pts, file
vars == <<rows, pars, form, pts, file>>
Nr(k) == <<k, k, 1, 0, -1>>
Settings == {<<a, b>> : a, b \in 1..2}
Forms == {"plain", "matrix", "twice"}
PNames == <<"A", "B">>
Init == /\ rows \in 1..MaxRows /\ pars \in {<<>>, <<1>>, <<1, 2>>, <<2, 1>>} /\ form \in Forms /\ pts = <<>> /\ file = <<>>
NamesOf == <<Plain("x")>> \o (CASE form = "plain" -> <<Plain("P")>>
                             [] form = "matrix" -> <<El("S", 1, 1), El("S", 1, 2), Plain("P")>>
                             [] form = "twice" -> <<Plain("P"), Plain("P")>>)
(* value of column c in row q at setting s *)
Val(s, q, c) == 1000 * s[1] + 100 * s[2] + 10 * q + c
Cell(v) == [k |-> "n", v |-> Nr(v)]
ParLine(s, k) == [t |-> "c", x |-> PNames[k] \o "=" \o ToString(s[k]), at |-> TRUE, p |-> <<[n |-> PNames[k], u |-> <<"?">>, v |-> <<ToString(s[k])>>]>>]
TableOf(s) == [k \in 1..Len(pars) |-> ParLine(s, pars[k])] \o <<[t |-> "h", names |-> NamesOf]>>
    \o [q \in 1..rows |-> [t |-> "d", cells |-> [c \in 1..Len(NamesOf) |-> Cell(IF c = 1 THEN q ELSE Val(s, q, c))]]]
Write(s) == /\ Len(pts) < MaxTables
            /\ (Len(pars) < 2 => s[2] = 1) /\ (pars = <<>> => s[1] = 1 /\ pts = <<>>)
            /\ pts' = Append(pts, s) /\ file' = file \o TableOf(s)
            /\ UNCHANGED <<rows, pars, form>>
Next == \E s \in Settings : Write(s)
Spec == Init /\ [][Next]_vars
Off == [cplx |-> FALSE, unit |-> FALSE, norm |-> FALSE, mat |-> TRUE, prop |-> FALSE]
NoDup == \A j, k \in 1..Len(pts) : pts[j] = pts[k] => j = k
(* dimensions of length one are left out of merged blocks *)
Single(k) == Cardinality({pts[q][k] : q \in 1..Len(pts)}) = 1
(* the parameter n at position ix of variable v of block b *)
ParAt(b, v, ix, n) ==
    LET d == FirstIdx(v.dims, LAMBDA e : e.name = n) w == ByName(b.vars, n) p == FirstIdx(b.parts, LAMBDA e : e.n = n) IN
    IF d # 0 THEN v.dims[d].data[ix[d] + 1]
    ELSE IF p # 0 THEN b.parts[p].d.data[1]
    ELSE IF w = 0 THEN "none"
    ELSE IF b.vars[w].dims = <<>> THEN b.vars[w].vals[1]
    ELSE LET s == FirstIdx(v.dims, LAMBDA e : e.name = b.vars[w].dims[1].name) IN IF s = 0 THEN "none" ELSE b.vars[w].vals[ix[s] + 1]
Shape(v) == [k \in 1..Len(v.dims) |-> Len(v.dims[k].data)]
At(v, ix, n) == LET d == FirstIdx(v.dims, LAMBDA e : e.name = n) IN IF d = 0 THEN 0 ELSE ix[d]
Hits(b, v, s, q, val) == {z \in 1..Len(v.vals) : v.vals[z] = RealText(val)
        /\ LET ix == Unravel(z - 1, Shape(v)) IN At(v, ix, "x") = q - 1 /\ \A k \in 1..Len(pars) : LET p == ParAt(b, v, ix, PNames[pars[k]]) IN p = RealText(s[pars[k]]) \/ (p = "none" /\ Single(pars[k]))}
Where1(b, s, q, c) ==
    LET v == b.vars[ByName(b.vars, "P")] w == b.vars[ByName(b.vars, "S")] IN
    CASE form = "matrix" /\ c < 4 -> {z \in Hits(b, w, s, q, Val(s, q, c)) : At(w, Unravel(z - 1, Shape(w)), "j") = c - 2}
      [] form = "twice" -> {z \in Hits(b, v, s, q, Val(s, q, c)) : At(v, Unravel(z - 1, Shape(v)), "rep") = c - 2}
      [] OTHER -> Hits(b, v, s, q, Val(s, q, c))
AllFound(b) == \A k \in 1..Len(pts) : \A q \in 1..rows : \A c \in 2..Len(NamesOf) : Where1(b, pts[k], q, c) # {}
InvFound == (pts # <<>> /\ NoDup) => \A hyper \in BOOLEAN :
    LET r == SpRead(file, Off, TRUE, hyper) IN r.ok => Len(r.l) = 1 /\ AllFound(r.l[1])
(* one parameter, or a list, always fits; a grid is never refused *)
Grid == Len(pars) < 2 \/ LET A == {pts[k][1] : k \in 1..Len(pts)} B == {pts[k][2] : k \in 1..Len(pts)} IN Cardinality(A) * Cardinality(B) = Len(pts)
InvAccepted == (pts # <<>> /\ NoDup /\ Grid) => \A hyper \in BOOLEAN : SpRead(file, Off, TRUE, hyper).ok
InvList == (pts # <<>> /\ NoDup) => SpRead(file, Off, TRUE, FALSE).ok
InvSeparate == pts # <<>> => LET r == SpRead(file, Off, FALSE, FALSE) IN
    r.ok /\ Len(r.l) = Len(pts) /\ \A k \in 1..Len(pts) : Len(r.l[k].parts) = Len(pars)
(* a row with a cell too many or too few, or a table without names, is malformed *)
InvRagged == \A k \in 1..Len(file) : file[k].t = "d" =>
    /\ ~SpRead([file EXCEPT ![k].cells = Tail(@)], Off, FALSE, FALSE).ok
    /\ ~SpRead([file EXCEPT ![k].cells = Append(@, Cell(7))], Off, FALSE, FALSE).ok
InvHeader == \A k \in 1..Len(file) : (file[k].t = "h" /\ (pars # <<>> \/ k = 1)) => ~SpRead(RemoveAt(file, k), Off, FALSE, FALSE).ok
Emit == (HistOn /\ Len(pts) > 1) => PrintT("BEHAVIOUR " \o ToJson([file |-> file]))
=============================================================================
