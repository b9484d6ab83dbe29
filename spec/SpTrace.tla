------------------------------ MODULE SpTrace -------------------------------
(* Recorded readings and savings of SP tables.                               *)
EXTENDS Sp, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Free == {"FILENAME", "FILEINDEX"}
PartsWhy(ps, o) ==
    UNION {LET h == SelectSeq(o.ivars, LAMBDA d : d.name = ps[k].n /\ d.cls = "DimPartial") IN
           IF h = <<>> THEN {"parameter " \o ps[k].n \o " is missing"} ELSE DimWhy(<<ps[k].d>>, <<h[1]>>, ps[k].n) : k \in 1..Len(ps)}
BlockWhy(e, o, merged) ==
    VarsWhy(e.vars, o.vars, Free) \cup IvarsWhy(o) \cup PartsWhy(e.parts, o)
    \cup (IF ~merged /\ e.sweep.name \notin {o.ivars[k].name : k \in 1..Len(o.ivars)} THEN {"sweep is missing"} ELSE {})
    \cup (IF o.cmt # e.cmt THEN {"comments"} ELSE {})
ReadWhy(v) ==
    LET r == SpRead(v.o.file, v.o.flags, v.o.merge, v.o.hyper) IN
    IF ~r.ok THEN (IF v.err = "" THEN {"malformed file was not rejected"} ELSE {})
    ELSE IF v.err # "" THEN {"valid file was rejected: " \o v.err}
    ELSE IF Len(v.out.l) # Len(r.l) THEN {"number of blocks"}
    ELSE UNION {BlockWhy(r.l[k], v.out.l[k], FALSE) : k \in 1..Len(r.l)}
AllOn == [cplx |-> TRUE, unit |-> TRUE, norm |-> TRUE, mat |-> TRUE, prop |-> TRUE]
AsOut(b) == [vars |-> b.vars, ivars |-> <<b.sweep>> \o [k \in 1..Len(b.parts) |-> b.parts[k].d]]
(* v.o.block is what was saved, v.out.file the lines written, v.out.l the block read back *)
SaveWhy(v) ==
    IF v.err # "" THEN {"saving or reading back failed: " \o v.err}
    ELSE LET r == SpRead(v.out.file, AllOn, TRUE, TRUE) names == {v.o.names[k] : k \in 1..Len(v.o.names)} IN
         (IF ~r.ok THEN {"what was written is no SP table"}
          ELSE {"written: " \o w : w \in BackWhy(v.o.block, r.l[1].vars, Free \cup names)}
               \cup (IF Len(r.l[1].parts) = 0 THEN {} ELSE {"written: " \o w : w \in LabelWhy(v.o.ones, AsOut(r.l[1]))}))
         \cup BackWhy(v.o.block, v.out.l[1].vars, Free \cup names)
         \cup LabelWhy(v.o.ones, v.out.l[1]) \cup IvarsWhy(v.out.l[1])
         \cup (IF Take(v.out.l[1].cmt, Len(v.o.cmt)) # v.o.cmt THEN {"comments"} ELSE {})
Explain(v) == IF v.o.op = "read" THEN ReadWhy(v) ELSE SaveWhy(v)
Init == i = 1 /\ bad = 0
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN bad' = bad
           ELSE LET why == Explain(v) IN
                IF why = {} THEN bad' = bad
                ELSE PrintT("VIOL " \o ToJson([line |-> i, why |-> why])) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
