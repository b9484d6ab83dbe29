----------------------------- MODULE AliasTrace -----------------------------
(* Conformance of recorded histories with Alias: after every operation every  *)
(* live array (values, labels, unit, format) is exactly what the shared store *)
(* implies.                                                                   *)
EXTENDS Alias, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, skip, bad
vars == <<heap, store, i, skip, bad>>

Clauses(e, o, meta, what, anon) ==
    (IF e.shape # o.shape THEN {what \o ": shape"} ELSE {})
    \cup (IF ~SameDims(e.dims, o.dims) THEN {what \o ": dimensions and labels"} ELSE {})
    \cup (IF e.shape = o.shape /\ ~SameVals(e, o) THEN {what \o ": values"} ELSE {})
    \cup (IF meta /\ (e.unit # o.unit) THEN {what \o ": unit"} ELSE {})
    \cup (IF meta /\ Len(e.dims) = Len(o.dims) /\ \E q \in 1..Len(e.dims) : e.dims[q].fmt # o.dims[q].fmt /\ e.dims[q].name # anon THEN {what \o ": output format of a dimension"} ELSE {})
    \cup (IF meta /\ (e.fmt # o.fmt) THEN {what \o ": output format"} ELSE {})
MetaKept(o, r) == (o.op \in (KeepsMeta \cup Mutations \cup {"ctor"})) /\ r.shape # <<>>
Explain(w, v) ==
    LET o == v.o
        m == Outcome(w, o, v.shared)
    IN IF m.st = "ok" /\ v.err # "" THEN {"refused: " \o v.err}
       ELSE IF m.st = "err" /\ v.err = "" THEN {"should be refused"}
       ELSE LET nw == IF m.st = "err" THEN w ELSE m.val
                e == ValueHeap(nw.h, nw.st)
            IN UNION {IF r \notin DOMAIN v.heap THEN {"lost array"}
                      ELSE Clauses(e[r], v.heap[r], r # o.dst \/ m.st = "err" \/ MetaKept(o, e[r]), IF r = o.dst THEN "result" ELSE "another array", IF o.op = "mask" THEN o.anon ELSE "") : r \in DOMAIN e}
               \cup (IF m.st = "ok" /\ v.shared \notin Allowed(w, o)
                     THEN {IF v.shared THEN "result shares data with its source" ELSE "view does not share data with its source"} ELSE {})
(* unit and format of computed results are not specified here: take what is there *)
Sync(nw, v) == World([r \in DOMAIN nw.h |-> [nw.h[r] EXCEPT !.unit = v.heap[r].unit, !.fmt = v.heap[r].fmt, !.dims = v.heap[r].dims]], nw.st)

Init == i = 1 /\ heap = <<>> /\ store = <<>> /\ skip = FALSE /\ bad = 0
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN LET w == FreshAll(World(<<>>, <<>>), DOMAIN v.heap, v.heap) IN
                                  heap' = w.h /\ store' = w.st /\ skip' = FALSE /\ bad' = bad
           ELSE IF skip THEN UNCHANGED <<heap, store, skip, bad>>
           ELSE LET why == Explain(World(heap, store), v) IN
                IF why = {} THEN LET m == Outcome(World(heap, store), v.o, v.shared)
                                     nw == IF m.st = "ok" THEN Sync(m.val, v) ELSE World(heap, store)
                                 IN heap' = nw.h /\ store' = nw.st /\ UNCHANGED <<skip, bad>>
                ELSE /\ PrintT("VIOL " \o ToJson([line |-> i, why |-> why]))
                     /\ skip' = TRUE /\ bad' = bad + 1 /\ UNCHANGED <<heap, store>>
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
