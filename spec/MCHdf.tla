------------------------------- MODULE MCHdf --------------------------------
(* Bounded model: blocks are saved, appended and refused in any order; the   *)
(* file always holds the blocks accepted since it was last saved, in order.  *)
EXTENDS Hdf, Json
CONSTANTS MaxOps, MaxPool, HistOn
VARIABLES file, got, ops
vars == <<file, got, ops>>
DF(n) == FDim("DimSweep", "f", [k \in 1..n |-> "n:" \o ToString(k)], "Hz")
DG == FDim("DimRep", "g", <<"t:a", "t:b">>, NoUnit)
Dt(k, n) == [k |-> k, n |-> n]
Vals(m, from) == [k \in 1..m |-> "n:" \o ToString(from + k)]
Var(n, dt, dims, from) == [n |-> n, dt |-> dt, dims |-> dims, vals |-> Vals(ProdSeq([k \in 1..Len(dims) |-> Len(dims[k].data)]), from), unit |-> "V", fmt |-> "%d"]
Blk(vs) == [vars |-> vs, ivars |-> <<DF(2), DG>>, cmt |-> <<"remark">>, name |-> "~"]
Pool == <<
  Blk(<<Var("x", Dt("f", 8), <<DF(2), DG>>, 10), Var("s", Dt("i", 8), <<>>, 1)>>),
  Blk(<<Var("s", Dt("i", 8), <<>>, 2), Var("x", Dt("f", 8), <<DG, DF(2)>>, 20)>>),     \* the other way round
  Blk(<<Var("x", Dt("i", 8), <<DF(2), DG>>, 30), Var("s", Dt("i", 4), <<>>, 3)>>),     \* smaller types
  Blk(<<Var("x", Dt("f", 8), <<DF(2), DG>>, 40)>>),                                    \* s is missing
  Blk(<<Var("x", Dt("f", 8), <<DF(2), DG>>, 50), Var("s", Dt("f", 8), <<>>, 5)>>),     \* s does not go into an integer
  Blk(<<Var("x", Dt("f", 8), <<DF(2)>>, 60), Var("s", Dt("i", 8), <<>>, 6)>>),         \* a dimension is missing
  Blk(<<Var("x", Dt("f", 8), <<DF(1), DG>>, 70), Var("s", Dt("i", 8), <<>>, 7)>>) >>   \* another length
X0 == [name |-> "INDEX", cls |-> "DimRep", unit |-> NoUnit, first |-> 0, n |-> 1]
Blocks == 1..(IF MaxPool < Len(Pool) THEN MaxPool ELSE Len(Pool))
Init == file = NoFile /\ got = <<>> /\ ops = <<>>
Note(o) == ops' = Append(ops, o)
DoSave == \E k \in Blocks, ver \in {"0.1", "0.2"}, exp \in BOOLEAN :
            /\ (ver = "0.1" => ~exp) /\ Cardinality(Range(Pool[k].ivars)) = 2
            /\ file' = Saved(Pool[k], ver, exp, X0) /\ got' = <<k>> /\ Note([op |-> "save", k |-> k, ver |-> ver, exp |-> exp])
DoAppend == \E k \in Blocks :
            /\ file.ver # ""
            /\ IF Fits(file, Pool[k], X0) THEN file' = Appended(file, Pool[k]) /\ got' = Append(got, k) ELSE UNCHANGED <<file, got>>
            /\ Note([op |-> "append", k |-> k, ver |-> "", exp |-> FALSE])
Next == Len(ops) < MaxOps /\ (DoSave \/ DoAppend)
Spec == Init /\ [][Next]_vars
(* every value of every accepted block is at its own number and its own labels *)
ValueAt(v, lab) == LET sh == Shape(v)
                       h == {q \in 1..Len(v.vals) : LET ix == Unravel(q - 1, sh) IN \A d \in 1..Len(v.dims) : v.dims[d].data[ix[d] + 1] = lab[v.dims[d].name]}
                   IN IF Cardinality(h) = 1 THEN v.vals[CHOOSE q \in h : TRUE] ELSE "none"
InvStack == file.ver # "" =>
    \A z \in 1..Len(got) : LET b == Pool[got[z]] rv == ReadVars(file) IN
        /\ Len(got) = IF file.exp THEN file.x.n ELSE 1
        /\ \A m \in 1..Len(file.vars) : LET w == b.vars[ByName(b.vars, file.vars[m].n)] v == rv[m] IN
            /\ Len(v.vals) = Len(got) * Len(w.vals)
            /\ \A q \in 1..Len(w.vals) : LET ix == Unravel(q - 1, Shape(w)) IN
                 w.vals[q] = ValueAt(v, [n \in Range(Names(v.dims)) |-> IF n = "INDEX" THEN "n:" \o ToString(z - 1)
                                          ELSE LET d == FirstIdx(w.dims, LAMBDA e : e.name = n) IN w.dims[d].data[ix[d] + 1]])
InvKinds == file.ver # "" => \A z \in 1..Len(got) : \A m \in 1..Len(file.vars) : LET b == Pool[got[z]] IN Holds(file.vars[m].dt, b.vars[ByName(b.vars, file.vars[m].n)].dt)
InvClosed == (file.ver # "" /\ ~file.exp) => Len(got) = 1
Emit == (HistOn /\ Len(ops) > 1) => PrintT("BEHAVIOUR " \o ToJson([ops |-> ops, pool |-> Pool]))
=============================================================================
