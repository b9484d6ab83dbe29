----------------------------- MODULE MergeTrace -----------------------------
(* Recorded merges: inputs before, inputs after, result. *)
EXTENDS Merge, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, skip, bad
vars == <<heap, blocks, i, skip, bad>>
NameSet(b) == {b.vars[k].n : k \in 1..Len(b.vars)}
SameLab(e, o) == IF e.num = "lab" \/ o.num = "lab" THEN e.num = o.num /\ e.vals = o.vals ELSE SameVals(e, o)
VarWhy(e, o, n) ==
    (IF e.shape # o.shape THEN {"shape of " \o n} ELSE {})
    \cup (IF ~SameDims(e.dims, o.dims) THEN {"dimensions and labels of " \o n} ELSE {})
    \cup (IF e.shape = o.shape /\ ~SameLab(e, o) THEN {"values of " \o n} ELSE {})
    \cup (IF e.unit # o.unit THEN {"unit of " \o n} ELSE {})
ResultWhy(ins, e, o, hyper) ==
    IF NameSet(e) # NameSet(o) THEN {"variables are not those of the inputs"}
    ELSE (IF Len(e.vars) # Len(o.vars) THEN {"a variable occurs twice"} ELSE {})
    \cup UNION {VarWhy(e.vars[k].a, Var(o, e.vars[k].n), e.vars[k].n) : k \in 1..Len(e.vars)}
    \cup UNION {IF HasIvar(o, n) THEN {} ELSE {"dimension " \o n \o " lost"} : n \in CarriedDims(ins, e)}
    \cup UNION {LET n == e.ivars[k].n IN IF ~HasIvar(o, n) THEN {"dimension " \o n \o " not registered"}
                ELSE IF ~SameDims(<<e.ivars[k].d>>, <<Ivar(o, n)>>) THEN {"registered dimension " \o n} ELSE {} : k \in 1..Len(e.ivars)}
    \cup (IF o.cmt # MergedComments(ins) THEN {"comments"} ELSE {})
    \cup (IF o.name # ins[1].name THEN {"block name"} ELSE {})
Explain(v) ==
    LET m == MergeB(v.o.ins, v.o.hyper) IN
    (IF v.after # v.o.ins THEN {"an input block changed"} ELSE {})
    \cup (IF m.st = "err" THEN (IF v.err = "" THEN {"should be refused"} ELSE {})
          ELSE IF v.err # "" THEN {"refused: " \o v.err}
          ELSE ResultWhy(v.o.ins, m.val, v.out, v.o.hyper))
Init == i = 1 /\ heap = <<>> /\ blocks = <<>> /\ skip = FALSE /\ bad = 0
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ UNCHANGED <<heap, blocks, skip>>
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN bad' = bad
           ELSE LET why == Explain(v) IN
                IF why = {} THEN bad' = bad
                ELSE PrintT("VIOL " \o ToJson([line |-> i, why |-> why])) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
