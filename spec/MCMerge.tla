------------------------------ MODULE MCMerge -------------------------------
(* Bounded model: lists of up to MaxBlocks blocks are built one at a time,    *)
(* each with parameters chosen freely; after every step the merge of the list *)
(* (flat and gridded) is checked: every input value is found exactly once,    *)
(* under its own parameters and coordinates, and nothing else is there.       *)
EXTENDS Merge, Json
CONSTANTS MaxBlocks, HistOn
VARIABLES ins
f2 == Dim("DimSweep", "f", <<"10", "20">>, "Hz", "%d")
i2 == Dim("DimMatrix_i", "i", <<"0", "1">>, None, "%d")
j2 == Dim("DimMatrix_j", "j", <<"0", "1">>, None, "%d")
Mk(ds, off, u) == LET sh == [k \in 1..Len(ds) |-> Len(ds[k].data)] IN
    Arr(ds, sh, "int", [k \in 1..Size(sh) |-> off + k], <<>>, u, "%d")
Part(n, v) == [n |-> n, d |-> Dim("DimPartial", n, <<v>>, "V", "%d")]
Kinds == {"vm", "s", "g"}
NewBlock(k, pv, kind) ==
    LET b == CASE kind = "vm" -> FromVars(EmptyBlock, <<[n |-> "x", a |-> Mk(<<f2>>, 100 * k, "A")], [n |-> "S", a |-> Mk(<<f2, i2, j2>>, 100 * k + 20, None)]>>)
               [] kind = "s" -> FromVars(EmptyBlock, <<[n |-> "x", a |-> Mk(<<f2>>, 100 * k, "A")]>>)
               [] kind = "g" -> FromVars(EmptyBlock, <<[n |-> "y", a |-> Mk(<<>>, 100 * k, None)]>>)
        ps == IF kind = "g" THEN <<Part("q", pv[1])>> ELSE <<Part("p", pv[1]), Part("r", pv[2])>>
    IN [vars |-> b.vars, ivars |-> ps \o b.ivars, name |-> "n" \o ToString(k), cmt |-> <<"c" \o ToString(k)>>]
coordOf(gi, pos, b, a, ix) ==
    [n \in {a.dims[d].name : d \in 1..NDim(a)} \cup Range(Parts(b)) \cup {"INDEX" \o ToString(gi)} |->
        IF n = "INDEX" \o ToString(gi) THEN ToString(pos - 1)
        ELSE IF n \in Range(Parts(b)) THEN PartDim(b, n).data[1]
        ELSE LET d == NameIdx(a.dims, n) IN a.dims[d].data[ix[d] + 1]]
MLaw(hyper) ==
    LET m == MergeB(ins, hyper) IN
    m.st = "ok" =>
      /\ \A k \in 1..Len(ins) : \A q \in 1..Len(ins[k].vars) :
           LET v == ins[k].vars[q]
               gi == FirstIdx(GroupsOf(ins), LAMBDA g : g = Parts(ins[k]))
               pos == FirstIdx(Members(ins, Parts(ins[k])), LAMBDA z : z = k)
           IN \A p \in 1..Size(v.a.shape) :
                LET ix == Unravel(p - 1, v.a.shape) IN FoundIn(m.val, v.n, v.a, ix, coordOf(gi, pos, ins[k], v.a, ix))
      /\ \A q \in 1..Len(m.val.vars) : LET n == m.val.vars[q].n IN
           ~(\E g \in 1..Len(GroupsOf(ins)) : n \in Range(GroupsOf(ins)[g])) =>
             Size(m.val.vars[q].a.shape) = SumSeq([k \in 1..Len(Holders(ins, n)) |-> Size(Var(ins[Holders(ins, n)[k]], n).shape)])
Grid(hyper) == \* gridding is refused exactly when the parameters do not span a grid
    (MergeFlat(ins).st = "ok" /\ hyper) =>
       (MergeB(ins, TRUE).st = "ok" <=> \A g \in 1..Len(GroupsOf(ins)) :
            LET mem == Members(ins, GroupsOf(ins)[g])
                vals(n) == {PartDim(ins[mem[k]], n).data[1] : k \in 1..Len(mem)}
                tuples == {[p \in 1..Len(GroupsOf(ins)[g]) |-> PartDim(ins[mem[k]], GroupsOf(ins)[g][p]).data[1]] : k \in 1..Len(mem)}
            IN Cardinality(tuples) = Len(mem) /\ Len(mem) = ProdSeq([p \in 1..Len(GroupsOf(ins)[g]) |-> Cardinality(vals(GroupsOf(ins)[g][p]))]))
Init == ins = <<>> /\ heap = <<>> /\ blocks = <<>>
Next == /\ Len(ins) < MaxBlocks
        /\ \E kind \in Kinds, v \in {"3", "1"}, w \in {"7", "2"} :
             /\ kind = "g" => w = "7"
             /\ ins' = Append(ins, NewBlock(Len(ins) + 1, <<v, w>>, kind))
        /\ UNCHANGED <<heap, blocks>>
Spec == Init /\ [][Next]_<<ins, heap, blocks>>
InvFound == ins # <<>> => MLaw(FALSE) /\ MLaw(TRUE)
InvGrid == ins # <<>> => Grid(TRUE)
Emit == (HistOn /\ Len(ins) >= 2) => PrintT("BEHAVIOUR " \o ToJson([ins |-> ins]))
=============================================================================
