----------------------------- MODULE TouchTrace -----------------------------
(* Recorded readings and savings of Touchstone files.                        *)
EXTENDS Touchstone, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Free == {"FILENAME", "FILEINDEX"}
ReadWhy(v) ==
    LET file == v.o.file IN
    IF ~Valid(file) THEN (IF v.err = "" THEN {"malformed file was not rejected"} ELSE {})
    ELSE IF v.err # "" THEN {"valid file was rejected: " \o v.err}
    ELSE LET n == MinOf(PortCounts(DataOf(file))) IN
         (IF \E e \in Readings(file) : VarsWhy(e, v.out.vars, Free) = {} THEN {} ELSE VarsWhy(BlockVars(OptOf(file), DataOf(file), n), v.out.vars, Free))
         \cup (IF v.out.cmt # CommentsOf(file) THEN {"comments"} ELSE {})
(* saving: v.o.block is the block, v.o.file what was written, v.out what is read back *)
SWhy(block, os) == LET k == ByName(block, "S") q == ByName(os, "S") IN
    IF q = 0 THEN {"matrix is missing"} ELSE VarWhy([block[k] EXCEPT !.dims[1].name = "freq", !.dims[1].unit = "Hz"], os[q])
SaveWhy(v) ==
    IF v.err # "" THEN {"saving or reading back failed: " \o v.err}
    ELSE (IF ~Valid(v.o.file) THEN {"what was written is no Touchstone file"}
          ELSE IF \E e \in Readings(v.o.file) : SWhy(v.o.block, e) = {} THEN {} ELSE {"the file does not say what was saved"})
         \cup SWhy(v.o.block, v.out.vars)
         \cup (IF SubSeq(v.out.cmt, 1, Len(v.o.cmt)) # v.o.cmt THEN {"comments"} ELSE {})
Explain(v) == IF v.o.op = "read" THEN ReadWhy(v) ELSE SaveWhy(v)
Init == i = 1 /\ bad = 0
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN bad' = bad
           ELSE LET why == Explain(v) IN
                IF why = {} THEN bad' = bad
                ELSE PrintT("VIOL " \o ToJson([line |-> i, why |-> why])) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
