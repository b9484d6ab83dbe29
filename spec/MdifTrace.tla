----------------------------- MODULE MdifTrace ------------------------------
(* Recorded readings of MDIF files.                                          *)
EXTENDS Mdif, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Free == {"FILENAME", "FILEINDEX"}
PartsWhy(ps, o) ==
    UNION {LET h == SelectSeq(o.ivars, LAMBDA d : d.name = ps[k].n /\ d.cls = "DimPartial") IN
           IF h = <<>> THEN {"parameter " \o ps[k].n \o " is missing"} ELSE DimWhy(<<ps[k].d>>, <<h[1]>>, ps[k].n) : k \in 1..Len(ps)}
BlockWhy(e, o) ==
    VarsWhy(e.vars, o.vars, Free) \cup IvarsWhy(o) \cup PartsWhy(e.parts, o)
    \cup (IF e.sweep.name \notin {o.ivars[k].name : k \in 1..Len(o.ivars)} THEN {"sweep is missing"} ELSE {})
    \cup (IF o.cmt # e.cmt THEN {"comments"} ELSE {})
Explain(v) ==
    LET r == MdRead(v.o.file, v.o.flags)
        seen == {v.out.l[k].name : k \in 1..Len(v.out.l)}
        want == IF v.o.pick = "" THEN r.names ELSE {v.o.pick}
        got(n) == v.out.l[FirstIdx(v.out.l, LAMBDA b : b.name = n)]
    IN IF ~r.ok THEN (IF v.err = "" THEN {"malformed file was not rejected"} ELSE {})
       ELSE IF v.o.pick # "" /\ v.o.pick \notin r.names THEN (IF v.err = "" THEN {"a block that is not there was found"} ELSE {})
       ELSE IF v.err # "" THEN {"valid file was rejected: " \o v.err}
       ELSE IF seen # want \/ Len(v.out.l) # Cardinality(want) THEN {"names of the blocks"}
       ELSE UNION {BlockWhy(r.b[n], got(n)) : n \in want}
Init == i = 1 /\ bad = 0
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN bad' = bad
           ELSE LET why == Explain(v) IN
                IF why = {} THEN bad' = bad
                ELSE PrintT("VIOL " \o ToJson([line |-> i, why |-> why])) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
