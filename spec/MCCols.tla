------------------------------- MODULE MCCols -------------------------------
(* Bounded model: tables are built column by column from a set of names that *)
(* get in one another's way; interpreting them loses nothing.                *)
EXTENDS Columns, Json
CONSTANTS MaxCols, HistOn
VARIABLES blk, last
vars == <<blk, last>>
Chars(s) == s
With(nm, fn) == [nm EXCEPT !.fn = fn]
Un(nm, u) == [nm EXCEPT !.unit = u, !.sp = " "]
Vb == Plain("V")
Pool == <<El("S", 1, 1), El("S", 1, 2), El("S", 2, 1), El("S", 2, 2), With(El("S", 1, 1), "Re"), With(El("S", 1, 1), "Im"), Plain("S"),
          Un(Vb, <<"m", "V">>), Vb, With(Vb, "Mean"), With(Un(Vb, <<"m", "V">>), "Re"), With(Un(Vb, <<"m", "V">>), "Im"),
          [Plain("a1") EXCEPT !.alpha = FALSE], [Plain("a1 raw") EXCEPT !.alpha = FALSE], El("a", 1, 1), With(Vb, "Mag"), With(Vb, "Arg")>>
Nr(k) == <<k, k, IF k % 2 = 0 THEN 1 ELSE 0, IF k % 2 = 0 THEN 0 ELSE 1, -1>>
Col(k) == [nm |-> Pool[k], kind |-> "n", sc |-> FALSE, dims |-> <<>>, vals |-> <<<<10 + k, 0>>>>, raws |-> <<Nr(10 + k)>>, unit |-> NoUnit]
Xs == {[nm |-> Un(Plain("Freq"), <<"G", "H", "z">>), vals |-> <<<<3, 0>>>>, unit |-> NoUnit, num |-> TRUE],
       [nm |-> Plain("V"), vals |-> <<<<3, 0>>>>, unit |-> NoUnit, num |-> TRUE]}
Init == last = 0 /\ \E x \in Xs : blk = [xs |-> <<x>>, cols |-> <<>>]
Next == /\ Len(blk.cols) < MaxCols
        /\ \E k \in (last + 1)..Len(Pool) :
             /\ TextOf(Pool[k]) # TextOf(blk.xs[1].nm)
             /\ last' = k /\ blk' = [blk EXCEPT !.cols = Append(@, Col(k))]
Spec == Init /\ [][Next]_vars
Flags(c, u, n, m) == [cplx |-> c, unit |-> u, norm |-> n, mat |-> m]
AllFlags == {Flags(c, u, n, m) : c, u, n, m \in BOOLEAN}
Count(b) == SumSeq([k \in 1..Len(b.cols) |-> Len(b.cols[k].vals)])
Origs(c) == IF c.kind = "c" THEN 2 ELSE 1
(* a complex value stands for two numbers, a matrix with a complex element for at most two each *)
InvLossless == \A f \in AllFlags :
    LET r == Interpreted(blk, f, {FALSE}, <<>>) IN
    r.ok => /\ ~Dup(r.b)
            /\ Count(r.b) <= Len(blk.cols)
            /\ Len(blk.cols) <= SumSeq([k \in 1..Len(r.b.cols) |-> Len(r.b.cols[k].vals) * Origs(r.b.cols[k])])
(* nothing is left to be done *)
InvStable == LET f == Flags(TRUE, TRUE, TRUE, TRUE) r == Interpreted(blk, f, {FALSE}, <<>>) IN
    r.ok => LET s == Interpreted(r.b, [f EXCEPT !.cplx = FALSE], {FALSE}, <<>>) IN s.ok /\ ColVars(s.b) = ColVars(r.b)
(* without any interpretation columns stay what they are *)
InvPlain == LET r == Interpreted(blk, Flags(FALSE, FALSE, FALSE, FALSE), {FALSE}, <<>>) IN r.ok /\ r.b = blk
(* the order of the columns does not matter unless two of them are after the same name *)
Back(b) == [b EXCEPT !.cols = Rev(@)]
Rival(b) == \E j, k \in 1..Len(b.cols) : j # k /\ b.cols[j].nm.base # "S" /\ (\E n \in {"V", "a1"} : Core(b.cols[j].nm) \in {n, "a1 raw", "a11"} /\ Core(b.cols[k].nm) \in {n, "a1 raw", "a11"})
InvOrder == ~Rival(blk) =>
    LET f == Flags(TRUE, TRUE, TRUE, TRUE) r == Interpreted(blk, f, {FALSE}, <<>>) s == Interpreted(Back(blk), f, {FALSE}, <<>>) IN
    r.ok = s.ok /\ (r.ok => Range(ColVars(r.b)) = Range(ColVars(s.b)))
Emit == (HistOn /\ Len(blk.cols) > 1) => PrintT("BEHAVIOUR " \o ToJson([block |-> blk]))
=============================================================================
