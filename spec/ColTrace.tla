------------------------------ MODULE ColTrace ------------------------------
(* Recorded imports of columns and interpretations of comments.              *)
EXTENDS Columns, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Free == {"FILENAME", "FILEINDEX"}
(* columns as recorded: raw numbers [v, rank, cos, sin, dec]; here values as pairs *)
Pairs(vals) == [q \in 1..Len(vals) |-> <<V(vals[q]), 0>>]
Ready(b) == [xs |-> <<[b.x EXCEPT !.vals = IF b.x.num THEN Pairs(@) ELSE @]>>,
             cols |-> [k \in 1..Len(b.cols) |-> LET c == b.cols[k] IN
                        [nm |-> c.nm, kind |-> c.kind, sc |-> FALSE, dims |-> c.dims, unit |-> c.unit, raws |-> c.vals,
                         vals |-> IF c.kind = "n" THEN Pairs(c.vals) ELSE c.vals]]]
ImportWhy(v) ==
    LET r == Interpreted(Ready(v.o.block), v.o.flags, {FALSE}, IF v.o.flags.prop THEN PropCols(v.o.props) ELSE <<>>)
    IN IF ~r.ok THEN (IF v.err = "" THEN {"name that is taken was normalised to"} ELSE {})
       ELSE IF v.err # "" THEN {"columns could not be read: " \o v.err}
       ELSE VarsWhy(ColVars(r.b), v.out.vars, Free) \cup IvarsWhy(v.out)
            \cup (IF TextOf(r.b.xs[1].nm) \notin {v.out.ivars[k].name : k \in 1..Len(v.out.ivars)} THEN {"sweep is missing"} ELSE {})
PropWhy(v) ==
    IF v.err # "" THEN {"comments could not be read: " \o v.err}
    ELSE VarsWhy(PropVars(v.o.props), v.out.vars, {}) \cup (IF v.out.cmt # v.o.cmt THEN {"text of the comments"} ELSE {})
Explain(v) == IF v.o.op = "import" THEN ImportWhy(v) ELSE PropWhy(v)
Init == i = 1 /\ bad = 0
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN bad' = bad
           ELSE LET why == Explain(v) IN
                IF why = {} THEN bad' = bad
                ELSE PrintT("VIOL " \o ToJson([line |-> i, why |-> why])) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
