------------------------------ MODULE MCConfig ------------------------------
(* Bounded model: keys are set, removed and sections added anywhere; lookup  *)
(* is compared with substitution (every section carries all it inherits).    *)
EXTENDS Config, Json
CONSTANTS MaxOps, MaxDepth, HistOn
VARIABLES doc, ops
vars == <<doc, ops>>
Keys == {"a", "b"}
Leaves == {<<"1">>, <<"2">>}
Leaf(s) == [t |-> "leaf", text |-> s, q |-> FALSE]
New == {Leaf(s) : s \in Leaves} \cup {Empty, [t |-> "seq", vs |-> <<Empty>>], [t |-> "map", ks |-> <<"a">>, vs |-> <<Leaf(<<"3">>)>>]}
(* all places of sections in a document *)
RECURSIVE Places(_, _)
Places(d, p) == (IF IsMap(d) THEN {p} ELSE {})
                \cup (IF d.t = "map" THEN UNION {Places(d.vs[q], Append(p, [k |-> d.ks[q]])) : q \in 1..Len(d.vs)}
                      ELSE IF d.t = "seq" THEN UNION {Places(d.vs[q], Append(p, [i |-> q])) : q \in 1..Len(d.vs)} ELSE {})
Init == doc = Empty /\ ops = <<>>
Op(op, p, k, v) == [op |-> op, p |-> p, key |-> k, node |-> v]
DoSet == \E p \in Places(doc, <<>>), k \in Keys \cup {"s"}, v \in New :
            /\ (v.t = "leaf") = (k # "s") /\ (v.t # "leaf" => Len(p) < MaxDepth)
            /\ doc' = SetAt(doc, p, k, v) /\ ops' = Append(ops, Op("set", p, k, v))
DoDel == \E p \in Places(doc, <<>>) : \E k \in Range(At(doc, p).ks) : doc' = DelAt(doc, p, k) /\ ops' = Append(ops, Op("del", p, k, Empty))
Next == Len(ops) < MaxOps /\ (DoSet \/ DoDel)
Spec == Init /\ [][Next]_vars
(* substitution: what a section sees, computed from the outside in *)
RECURSIVE Sees(_, _, _, _)
Sees(d, p, k, env) == LET e == IF Defines(d, k) THEN <<d.vs[KeyAt(d, k)]>> ELSE env IN
                      IF p = <<>> THEN e ELSE Sees(Step(d, Head(p)), Tail(p), k, e)
InvLookup == \A p \in Places(doc, <<>>), k \in Keys \cup {"s"} :
                LET e == Sees(doc, p, k, <<>>) IN Visible(doc, p, k) = (e # <<>>) /\ (e # <<>> => Lookup(doc, p, k) = e[1])
(* what was set last is seen there, and below unless something nearer defines the key *)
InvSet == ops = <<>> \/ LET o == ops[Len(ops)] IN
    IF o.op = "set" THEN Lookup(doc, o.p, o.key) = o.node
                         /\ \A p \in Places(doc, <<>>) : (Len(p) >= Len(o.p) /\ Take(p, Len(o.p)) = o.p /\ ~\E n \in Len(o.p) + 1..Len(p) : Defines(At(doc, Take(p, n)), o.key)) => Lookup(doc, p, o.key) = o.node
    ELSE ~Defines(At(doc, o.p), o.key)
InvKeys == \A p \in Places(doc, <<>>) : LET m == At(doc, p) IN Len(m.ks) = Len(m.vs) /\ \A q, r \in 1..Len(m.ks) : m.ks[q] = m.ks[r] => q = r
Emit == (HistOn /\ Len(ops) > 2) => PrintT("BEHAVIOUR " \o ToJson([ops |-> ops]))
View == <<doc, IF ops = <<>> THEN <<>> ELSE <<ops[Len(ops)]>>, Len(ops)>>
=============================================================================
