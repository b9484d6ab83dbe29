------------------------------ MODULE DimTrace ------------------------------
EXTENDS Dims, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, skip, bad
vars == <<dimheap, i, skip, bad>>
Clauses(e, o, what) ==
    (IF e.cls # o.cls THEN {what \o ": kind"} ELSE {})
    \cup (IF e.name # o.name THEN {what \o ": name"} ELSE {})
    \cup (IF e.data # o.data THEN {what \o ": data"} ELSE {})
    \cup (IF e.unit # o.unit THEN {what \o ": unit"} ELSE {})
    \cup (IF e.fmt # o.fmt THEN {what \o ": output format"} ELSE {})
NewHeap(h, o, m) == IF m.st = "err" \/ o.op \in Observations THEN h
                    ELSE [r \in DOMAIN h \cup {o.dst} |-> IF r = o.dst THEN m.val ELSE h[r]]
Explain(h, v) ==
    LET o == v.o
        m == DimMeaning(h, o)
        nh == NewHeap(h, o, m)
    IN IF m.st = "ok" /\ v.err # "" THEN {"refused: " \o v.err}
       ELSE IF m.st = "err" /\ v.err = "" THEN {"should be refused"}
       ELSE UNION {Clauses(nh[r], v.heap[r], IF o.op \notin Observations /\ m.st = "ok" /\ r = o.dst THEN "result" ELSE "dimension changed") : r \in DOMAIN nh}
            \cup (IF v.err = "" THEN ObsClauses(h, o, v.out) ELSE {})
Init == i = 1 /\ dimheap = <<>> /\ skip = FALSE /\ bad = 0
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN dimheap' = <<>> /\ skip' = FALSE /\ bad' = bad
           ELSE IF skip THEN UNCHANGED <<dimheap, skip, bad>>
           ELSE LET why == Explain(dimheap, v) IN
                IF why = {} THEN dimheap' = NewHeap(dimheap, v.o, DimMeaning(dimheap, v.o)) /\ UNCHANGED <<skip, bad>>
                ELSE /\ PrintT("VIOL " \o ToJson([line |-> i, why |-> why]))
                     /\ skip' = TRUE /\ bad' = bad + 1 /\ UNCHANGED dimheap
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
