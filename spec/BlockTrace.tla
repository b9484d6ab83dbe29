----------------------------- MODULE BlockTrace -----------------------------
(* Conformance of recorded block histories with Blocks.  Registered           *)
(* dimensions are compared as a mapping (their order is taken from the code). *)
EXTENDS Blocks, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, skip, bad
vars == <<heap, blocks, i, skip, bad>>

DimFmtSame(e, o) == \A k \in 1..Len(e) : e[k].fmt = o[k].fmt
VarClauses(e, o, n, meta, dfmt, what) ==
    (IF e.shape # o.shape THEN {what \o ": shape of " \o n} ELSE {})
    \cup (IF ~SameDims(e.dims, o.dims) THEN {what \o ": dimensions and labels of " \o n} ELSE {})
    \cup (IF e.shape = o.shape /\ ~SameVals(e, o) THEN {what \o ": values of " \o n} ELSE {})
    \cup (IF meta /\ e.unit # o.unit THEN {what \o ": unit of " \o n} ELSE {})
    \cup (IF meta /\ e.fmt # o.fmt THEN {what \o ": output format of " \o n} ELSE {})
    \cup (IF dfmt /\ Len(e.dims) = Len(o.dims) /\ ~DimFmtSame(e.dims, o.dims) THEN {what \o ": output format of a dimension of " \o n} ELSE {})
UsedBy(b) == UNION {{b.vars[k].a.dims[q].name : q \in 1..NDim(b.vars[k].a)} : k \in 1..Len(b.vars)}
BlockClauses(e, o, exact, meta, what) ==
    IF VarNames(e) # VarNames(o) THEN {what \o ": variables are not those expected"}
    ELSE UNION {VarClauses(e.vars[k].a, o.vars[k].a, e.vars[k].n, meta, TRUE, what) : k \in 1..Len(e.vars)}
         \cup (IF exact /\ {e.ivars[k].n : k \in 1..Len(e.ivars)} # {o.ivars[k].n : k \in 1..Len(o.ivars)}
               THEN {what \o ": registered dimensions are not those expected"} ELSE {})
         \cup (IF \E n \in UsedBy(o) : ~HasIvar(o, n) THEN {what \o ": a used dimension is not registered"} ELSE {})
         \cup UNION {LET n == e.ivars[k].n IN
                     IF HasIvar(o, n) /\ (exact \/ n \in UsedBy(o))
                     THEN (IF ~SameDims(<<e.ivars[k].d>>, <<Ivar(o, n)>>) THEN {what \o ": registered dimension " \o n} ELSE {})
                          \cup (IF e.ivars[k].d.fmt # Ivar(o, n).fmt THEN {what \o ": output format of dimension " \o n} ELSE {})
                     ELSE {} : k \in 1..Len(e.ivars)}
ReadClauses(b, o, out, err) ==
    LET r == ReadOf(b, o) IN
    IF o.op = "contains" THEN (IF out.isin # (HasVar(b, o.n) \/ HasIvar(b, o.n)) THEN {"membership"} ELSE {})
    ELSE IF r.st = "err" THEN (IF err = "" THEN {"an unknown name must be an error"} ELSE {})
    ELSE IF err # "" THEN {"reading refused: " \o err}
    ELSE IF r.st = "dim" THEN (IF SameDims(<<r.val>>, out.arr.dims) THEN {} ELSE {"dimension read by name"})
    ELSE VarClauses(r.val, out.arr, o.n, r.val.shape # <<>>, FALSE, "read")
ExactOps == Edits \cup {"copy", "view", "newblock"}
(* arrays that operations build anew: unit and format not specified *)
MetaOp(o) == o.op # "norep"
MetaOf(o, e) == IF o.op # "norep" THEN TRUE ELSE FALSE

Explain(bs, v) ==
    LET o == v.o IN
    IF o.op \in Reads
    THEN ReadClauses(bs[o.b], o, v.out, v.err) \cup UNION {BlockClauses(bs[r], v.heap[r], TRUE, TRUE, "reading changed a block") : r \in DOMAIN bs}
    ELSE IF ~KeysFit(bs[o.b], o) THEN {"driver keys"}
    ELSE LET m == BlockMeaning(bs, o)
             others == {r \in DOMAIN bs : r # o.dst \/ m.st = "err"}
         IN UNION {BlockClauses(bs[r], v.heap[r], TRUE, TRUE, "another block changed") : r \in others}
            \cup (IF m.st = "ok" /\ v.err # "" THEN {"refused: " \o v.err}
                  ELSE IF m.st = "err" /\ v.err = "" THEN {"should be refused"}
                  ELSE IF m.st = "err" THEN {}
                  ELSE BlockClauses(m.val, v.heap[o.dst], o.op \in ExactOps, MetaOf(o, m.val), "result"))

Init == i = 1 /\ heap = <<>> /\ blocks = <<>> /\ skip = FALSE /\ bad = 0
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ heap' = heap
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN blocks' = v.heap /\ skip' = FALSE /\ bad' = bad
           ELSE IF skip THEN UNCHANGED <<blocks, skip, bad>>
           ELSE LET why == Explain(blocks, v) IN
                IF why = {} THEN blocks' = v.heap /\ UNCHANGED <<skip, bad>>
                ELSE /\ PrintT("VIOL " \o ToJson([line |-> i, why |-> why]))
                     /\ skip' = TRUE /\ bad' = bad + 1 /\ UNCHANGED blocks
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
