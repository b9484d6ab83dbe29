------------------------------ MODULE HdfTrace ------------------------------
(* Recorded histories of storing, appending and reading, one file a trace.   *)
EXTENDS Hdf, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad, file
vars == <<i, bad, file>>
AllVarWhy(e, o, ver) ==
    DimWhy(e.dims, o.dims, e.n)
    \cup (IF ~SameTexts(e.vals, o.vals) THEN {"values of " \o e.n} ELSE {})
    \cup (IF e.dt.k # o.dt.k \/ (e.dt.k # "U" /\ e.dt.n # o.dt.n) THEN {"data type of " \o e.n} ELSE {})
    \cup (IF e.unit # o.unit THEN {"unit of " \o e.n} ELSE {})
    \cup (IF ver = "0.2" /\ e.fmt # o.fmt THEN {"format of " \o e.n} ELSE {})
ReadWhy(v) ==
    LET es == ReadVars(file) os == v.out.vars ds == ReadDims(file) IN
    IF file.ver = "?" THEN {}
    ELSE IF file.ver = "" THEN (IF v.err = "" THEN {"a file that is not there was read"} ELSE {})
    ELSE IF v.err # "" THEN {"reading failed: " \o v.err}
    ELSE UNION {LET k == ByName(os, es[q].n) IN IF k = 0 THEN {"variable " \o es[q].n \o " is missing"} ELSE AllVarWhy(es[q], os[k], file.ver) : q \in 1..Len(es)}
         \cup {"unexpected variable " \o os[q].n : q \in {q \in 1..Len(os) : ByName(es, os[q].n) = 0}}
         \cup UNION {LET h == FirstIdx(v.out.ivars, LAMBDA d : d.name = ds[q].name) IN
                     IF h = 0 THEN {"dimension " \o ds[q].name \o " is missing"} ELSE DimWhy(<<ds[q]>>, <<v.out.ivars[h]>>, "block") : q \in 1..Len(ds)}
         \cup {"unexpected dimension " \o d : d \in Range(Names(v.out.ivars)) \ Range(Names(ds))}
         \cup (IF file.ver = "0.1" /\ v.out.cmt # file.cmt THEN {"comments"} ELSE {})
         \cup (IF file.ver = "0.1" /\ v.out.name # file.name THEN {"block name"} ELSE {})
Ok(v) == v.err = ""
Explain(v) ==
    CASE v.o.op = "read" -> ReadWhy(v)
      [] v.o.op = "save" -> IF Ok(v) THEN {} ELSE {"saving was refused: " \o v.err}
      [] v.o.op = "append" -> IF Fits(file, v.o.block, v.o.x) THEN (IF Ok(v) THEN {} ELSE {"appending was refused: " \o v.err})
                              ELSE (IF Ok(v) THEN {"a block that does not fit was appended"} ELSE {})
After(v) ==
    CASE v.o.op = "save" -> IF Ok(v) THEN Saved(v.o.block, v.o.ver, v.o.exp, v.o.x) ELSE [NoFile EXCEPT !.ver = "?"]
      [] v.o.op = "append" -> IF Ok(v) /\ Fits(file, v.o.block, v.o.x) THEN Appended(file, v.o.block) ELSE file
      [] OTHER -> file
Init == i = 1 /\ bad = 0 /\ file = NoFile
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN bad' = bad /\ file' = NoFile
           ELSE LET why == Explain(v) IN
                /\ file' = After(v)
                /\ IF why = {} THEN bad' = bad
                   ELSE PrintT("VIOL " \o ToJson([line |-> i, why |-> why])) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
