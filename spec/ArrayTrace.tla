----------------------------- MODULE ArrayTrace -----------------------------
(* Conformance: a log recorded from the real code is a behaviour of           *)
(* ArraySpec.  Each line is a reset, or an operation with its outcome and the *)
(* projection of every live array after it.  A line that no Step of the       *)
(* specification explains is reported with the clauses it fails; the rest of  *)
(* that trace is skipped.                                                     *)
EXTENDS ArraySpec, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, skip, bad
vars == <<heap, i, skip, bad>>

(* anon: name of a dimension the operation makes up *)
ArrClauses(e, o, meta, what, anon) ==
    (IF e.shape # o.shape THEN {what \o ": shape"} ELSE {})
    \cup (IF ~SameDims(e.dims, o.dims) THEN {what \o ": dimensions and labels"} ELSE {})
    \cup (IF e.shape = o.shape /\ ~SameVals(e, o) THEN {what \o ": values"} ELSE {})
    \cup (IF meta /\ (e.unit # o.unit) THEN {what \o ": unit"} ELSE {})
    \cup (IF meta /\ Len(e.dims) = Len(o.dims) /\ \E q \in 1..Len(e.dims) : e.dims[q].fmt # o.dims[q].fmt /\ e.dims[q].name # anon
          THEN {what \o ": output format of a dimension"} ELSE {})
    \cup (IF meta /\ (e.fmt # o.fmt) THEN {what \o ": output format"} ELSE {})
(* why event v is not a step from heap h; {} when it is *)
Failing(h, v) ==
    LET o == v.o
        m == Meaning(h, o)
        others == {r \in DOMAIN h : r # o.dst \/ m.st = "err"}
    IN UNION {IF r \notin DOMAIN v.heap THEN {"lost array"} ELSE ArrClauses(h[r], v.heap[r], TRUE, "another array changed", "") : r \in others}
       \cup (IF m.st = "ok" /\ v.err # "" THEN {"refused: " \o v.err}
             ELSE IF m.st = "err" /\ v.err = "" THEN {"should be refused"}
             ELSE IF m.st = "err" THEN {}
             ELSE ArrClauses(m.val, v.heap[o.dst], o.op \in KeepsMeta /\ m.val.shape # <<>>, "result", IF o.op = "mask" THEN o.anon ELSE ""))

Init == i = 1 /\ heap = <<>> /\ skip = FALSE /\ bad = 0
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN heap' = v.heap /\ skip' = FALSE /\ bad' = bad
           ELSE IF skip THEN UNCHANGED <<heap, skip, bad>>
           ELSE LET why == Failing(heap, v) IN
                IF why = {} THEN heap' = v.heap /\ UNCHANGED <<skip, bad>>  \* Step(v.o) up to the encoding of numbers
                ELSE /\ PrintT("VIOL " \o ToJson([line |-> i, why |-> why]))
                     /\ skip' = TRUE /\ bad' = bad + 1 /\ UNCHANGED heap
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
