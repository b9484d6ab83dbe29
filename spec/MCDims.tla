------------------------------- MODULE MCDims -------------------------------
(* All heaps of three dimensions over a small universe, all derivation steps: *)
(* equality is an equivalence, an admissible order exists and is strict and   *)
(* total, lookups find the first matching kind, nothing existing changes.     *)
EXTENDS Dims, Json
CONSTANTS Depth, HistOn
VARIABLES hist
D(c, n, nk, data, dk, u, uk, f, t) == [cls |-> c, name |-> n, nk |-> nk, data |-> data, dk |-> dk, unit |-> u, uk |-> uk, fmt |-> f, typ |-> t]
NK == [a |-> <<97>>, ab |-> <<97, 98>>]
UK == [Hz |-> <<72, 122>>]
Univ == { D(c, n, NK[n], d[1], d[2], u[1], u[2], "~", d[3]) :
            c \in {"DimSweep", "DimRep", "DimPartial", "DimMatrix_i", "DimMatrix_j"}, n \in {"a", "ab"},
            d \in { <<<<"1", "2">>, <<<<4>>, <<8>>>>, "int">>, <<<<"2", "1">>, <<<<8>>, <<4>>>>, "int">>, <<<<>>, <<>>, "none">> },
            u \in { <<"~", <<>>>>, <<"Hz", UK["Hz"]>> } }
Regs == {"a", "b"}
Put(h, o, m) == [r \in DOMAIN h \cup {o.dst} |-> IF r = o.dst THEN m.val ELSE h[r]]
Ops(h) == UNION {
    {[op |-> "derive", x |-> x, cls |-> c, over |-> ov, dst |-> d] : c \in {"DimSweep", "DimRep", "DimPartial", "DimMatrix_i"}, d \in Regs,
         ov \in {[unit |-> "Hz", uk |-> UK["Hz"]], [name |-> "ab", nk |-> NK["ab"]], [fmt |-> "%.3f"],
                 [data |-> <<"5">>, dk |-> <<<<20>>>>, typ |-> "int"]}}
    \cup {[op |-> "slice", x |-> x, a |-> <<1>>, b |-> <<>>, s |-> <<>>, dst |-> d] : d \in Regs}
    \cup {[op |-> "slice", x |-> x, a |-> <<>>, b |-> <<>>, s |-> <<-1>>, dst |-> d] : d \in Regs}
    \cup {[op |-> k, x |-> x, dst |-> d] : k \in {"indep", "deriv", "copy"}, d \in Regs}
    : x \in {r \in Regs : h[r].cls \in {"DimSweep", "DimRep", "DimPartial", "DimMatrix_i", "DimMatrix_j"}} }
    \cup {[op |-> "cmp", x |-> x, y |-> y, z |-> x] : x \in Regs, y \in Regs}
    \cup {[op |-> "setattr", x |-> x, a |-> a] : x \in Regs, a \in {"name", "unit", "data", "outputformat"}}
    \cup {[op |-> "poke", x |-> x] : x \in Regs}
Laws(a, b, c) ==
    /\ SameDim(a, a)
    /\ SameDim(a, b) = SameDim(b, a)
    /\ SameDim(a, b) /\ SameDim(b, c) => SameDim(a, c)
    /\ ~TotalLt(a, a)
    /\ SameDim(a, b) => ~TotalLt(a, b)
    /\ ~SameDim(a, b) => (TotalLt(a, b) # TotalLt(b, a))
    /\ TotalLt(a, b) /\ TotalLt(b, c) => TotalLt(a, c)
    /\ ~Tied(a, b) => TotalLt(a, b) = Below(a, b)
Fill(d) == [d EXCEPT !.fmt = DefaultFmt(d.typ)]
Init == /\ \E a, b \in Univ : dimheap = [a |-> Fill(a), b |-> Fill(b)]
        /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops(dimheap) :
             LET m == DimMeaning(dimheap, o) IN
             /\ dimheap' = IF m.st = "err" \/ o.op \in Observations THEN dimheap ELSE Put(dimheap, o, m)
             /\ hist' = Append(hist, IF HistOn THEN [o |-> o, h |-> dimheap] ELSE 0)
             /\ (o.op \in {"slice", "indep", "deriv", "derive"} /\ m.st = "ok") =>
                   Assert((o.op # "derive" => m.val.name = dimheap[o.x].name /\ m.val.unit = dimheap[o.x].unit) /\ (o.op # "derive" => m.val.fmt = dimheap[o.x].fmt), o)
Spec == Init /\ [][Next]_<<dimheap, hist>>
InvLaws == \A u \in {CHOOSE x \in Univ : TRUE} \cup {dimheap.b} : Laws(dimheap.a, dimheap.b, Fill(u)) /\ Laws(Fill(u), dimheap.a, dimheap.b)
Emit == (HistOn /\ Len(hist) = Depth) => PrintT("BEHAVIOUR " \o ToJson([init |-> hist[1].h, ops |-> [k \in 1..Len(hist) |-> hist[k].o]]))
=============================================================================
