------------------------------- MODULE MCCiti -------------------------------
(* Bounded model: a writer puts down a CITI file line by line; the complete  *)
(* file says what the writer meant, incomplete and altered ones are no files.*)
EXTENDS Citi, Json
CONSTANTS MaxSweeps, MaxData, MaxLen, HistOn
VARIABLES xs, cols, file, done
vars == <<xs, cols, file, done>>
Nr(k) == <<k, k, IF k % 2 = 0 THEN 1 ELSE 0, IF k % 2 = 0 THEN 0 ELSE 1, -1>>
XNames == <<Plain("freq"), Plain("Vds"), Plain("n")>>
CNames == <<[El("S", 1, 1) EXCEPT !.br = TRUE], [El("S", 1, 2) EXCEPT !.br = TRUE], El("Z", 1, 1), Plain("P")>>
Cm(k) == [t |-> "c", x |-> "remark " \o ToString(k), p |-> <<>>]
(* choices: lengths and forms of the sweeps, types of the data *)
Init == /\ done = FALSE /\ file = <<>>
        /\ \E n \in 0..MaxSweeps : xs \in [1..n -> {[n |-> m, seg |-> s] : m \in 1..MaxLen, s \in BOOLEAN}]
        /\ \E n \in 1..MaxData : cols \in [1..n -> Types]
SizeOf == ProdSeq([k \in 1..Len(xs) |-> xs[k].n])
Ln(t) == [t |-> t]
XVal(k, q) == 10 * k + q * k
DVal(c, q) == 100 * c + q
SweepPart(k) == IF xs[k].seg THEN <<Ln("sb"), [t |-> "seg", a |-> Nr(XVal(k, 1)), b |-> Nr(XVal(k, xs[k].n)), n |-> xs[k].n], Ln("se")>>
                ELSE <<Ln("vb")>> \o [q \in 1..xs[k].n |-> [t |-> "n", v |-> <<Nr(XVal(k, q))>>]] \o <<Ln("ve")>>
DataPart(c) == <<Ln("b")>> \o [q \in 1..SizeOf |-> [t |-> "n", v |-> IF cols[c] = "MAG" THEN <<Nr(DVal(c, q))>> ELSE <<Nr(DVal(c, q)), Nr(q)>>]] \o <<Ln("e")>>
Complete(cm) == (IF cm = 1 THEN <<Cm(1)>> ELSE <<>>) \o <<Ln("citi")>> \o (IF cm = 2 THEN <<Cm(2)>> ELSE <<>>) \o <<[t |-> "name", x |-> "D"]>>
    \o (IF cm = 3 THEN <<Cm(3)>> ELSE <<>>) \o [k \in 1..Len(xs) |-> [t |-> "var", nm |-> XNames[k], typ |-> "MAG"]]
    \o (IF cm = 4 THEN <<Cm(4)>> ELSE <<>>) \o [k \in 1..Len(cols) |-> [t |-> "data", nm |-> CNames[k], typ |-> cols[k]]]
    \o (IF cm = 5 THEN <<Cm(5), Cm(6)>> ELSE <<>>) \o FlattenSeq([k \in 1..Len(xs) |-> SweepPart(k)])
    \o (IF cm = 6 THEN <<Cm(7)>> ELSE <<>>) \o FlattenSeq([c \in 1..Len(cols) |-> DataPart(c)])
Next == /\ ~done /\ done' = TRUE /\ \E cm \in 0..6 : file' = Complete(cm)
        /\ UNCHANGED <<xs, cols>>
Spec == Init /\ [][Next]_vars
Off == [cplx |-> FALSE, unit |-> FALSE, norm |-> FALSE, mat |-> FALSE, prop |-> FALSE]
On == [cplx |-> FALSE, unit |-> TRUE, norm |-> TRUE, mat |-> TRUE, prop |-> TRUE]
(* the last sweep varies fastest *)
InvMeant == done => LET r == CitiRead(file, Off) IN
    /\ r.ok /\ r.name = "D" /\ Len(r.vars) = Len(cols)
    /\ \A c \in 1..Len(cols) :
         /\ Len(r.vars[c].dims) = Len(xs)
         /\ \A k \in 1..Len(xs) : r.vars[c].dims[k].data = [q \in 1..xs[k].n |-> RealText(XVal(k, q))]
         /\ \A q \in 1..SizeOf : r.vars[c].vals[q] = (IF cols[c] = "MAG" THEN RealText(DVal(c, q)) ELSE IF cols[c] = "RI" THEN NumText(DVal(c, q), q)
                                                      ELSE IF q % 2 = 0 THEN NumText(DVal(c, q), 0) ELSE NumText(0, DVal(c, q)))
         /\ r.vars[c].kind = IF cols[c] = "MAG" THEN "n" ELSE "c"
InvComments == done => Len(CitiRead(file, Off).cmt) \in 0..2
(* every proper prefix and every file with a structural line missing is malformed *)
InvPrefix == done => \A n \in (FirstIdx(file, LAMBDA l : l.t = "data"))..(Len(file) - 1) : ~CitiRead(Take(file, n), Off).ok
Need == {"name", "vb", "ve", "sb", "seg", "se", "b", "e"}
InvNeeded == done => \A k \in 1..Len(file) : file[k].t \in Need => ~CitiRead(RemoveAt(file, k), Off).ok
InvCount == done => \A k \in 1..Len(file) : (file[k].t = "n" /\ k > Len(file) - SizeOf - 1) => ~CitiRead(RemoveAt(file, k), Off).ok
(* the two elements make a matrix *)
InvMatrix == (done /\ Len(cols) >= 2) => LET r == CitiRead(file, On) k == ByName(r.vars, "S") IN
    r.ok /\ k # 0 /\ \A q \in 1..SizeOf : /\ (cols[1] = "MAG" => r.vars[k].vals[2 * q - 1] = RealText(DVal(1, q)))
                                          /\ (cols[2] = "MAG" => r.vars[k].vals[2 * q] = RealText(DVal(2, q)))
Emit == (HistOn /\ done) => PrintT("BEHAVIOUR " \o ToJson([file |-> file]))
=============================================================================
