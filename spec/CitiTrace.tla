------------------------------ MODULE CitiTrace -----------------------------
(* Recorded readings and savings of CITI files.                              *)
EXTENDS Citi, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Free == {"FILENAME", "FILEINDEX"}
ReadWhy(v) ==
    LET r == CitiRead(v.o.file, v.o.flags) IN
    IF ~r.ok THEN (IF v.err = "" THEN {"malformed file was not rejected"} ELSE {})
    ELSE IF v.err # "" THEN {"valid file was rejected: " \o v.err}
    ELSE VarsWhy(r.vars, v.out.vars, Free) \cup IvarsWhy(v.out)
         \cup (IF r.sweeps \ {v.out.ivars[k].name : k \in 1..Len(v.out.ivars)} # {} THEN {"sweep is missing"} ELSE {})
         \cup (IF v.out.cmt # r.cmt THEN {"comments"} ELSE {})
         \cup (IF v.out.name # r.name THEN {"name"} ELSE {})
AllOn == [cplx |-> FALSE, unit |-> TRUE, norm |-> TRUE, mat |-> TRUE, prop |-> FALSE]
(* v.o.block is what was saved, v.out.file the lines written, v.out the block read back *)
SaveWhy(v) ==
    IF v.err # "" THEN {"saving or reading back failed: " \o v.err}
    ELSE LET r == CitiRead(v.out.file, AllOn) IN
         (IF ~r.ok THEN {"what was written is no CITI file"}
          ELSE {"written: " \o w : w \in SavesWhy(v.o.block, r.vars, v.o.sweeps)})
         \cup SavesWhy(v.o.block, v.out.vars, v.o.sweeps) \cup IvarsWhy(v.out)
         \cup (IF v.out.cmt # v.o.cmt THEN {"comments"} ELSE {})
         \cup (IF v.out.name # v.o.name THEN {"name"} ELSE {})
Explain(v) == IF v.o.op = "read" THEN ReadWhy(v) ELSE SaveWhy(v)
Init == i = 1 /\ bad = 0
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN bad' = bad
           ELSE LET why == Explain(v) IN
                IF why = {} THEN bad' = bad
                ELSE PrintT("VIOL " \o ToJson([line |-> i, why |-> why])) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
