--------------------------------- MODULE Hdf --------------------------------
(* HDF5 storage of blocks.  The file is a state: nothing, or a stored block, *)
(* possibly one that grows along an expansion dimension.  A variable is      *)
(* [n, dt, dims, vals, unit, fmt]; dt = [k, n] its data type (k: b bool,     *)
(* i integer, f float, c complex, U text, M date; n: size or resolution);    *)
(* values and labels are opaque texts.  The expansion dimension is           *)
(* [name, cls, unit, first, n]: labels first, first + 1, ...                 *)
EXTENDS FileBase
NoFile == [ver |-> "", exp |-> FALSE, x |-> <<>>, vars |-> <<>>, ivars |-> <<>>, cmt |-> <<>>, name |-> "~"]
XLabels(x) == [k \in 1..x.n |-> "n:" \o ToString(x.first + k - 1)]
XDim(x) == FDim(x.cls, x.name, XLabels(x), x.unit)
(* the place of the expansion dimension: second, or alone *)
Ax(v) == IF Len(v.dims) = 0 THEN 1 ELSE 2
Names(ds) == [k \in 1..Len(ds) |-> ds[k].name]
Shape(v) == [k \in 1..Len(v.dims) |-> Len(v.dims[k].data)]
Saved(b, ver, exp, x) ==
    [ver |-> ver, exp |-> exp, x |-> x, vars |-> b.vars, ivars |-> b.ivars,
     cmt |-> IF ver = "0.1" THEN b.cmt ELSE <<>>, name |-> IF ver = "0.1" THEN b.name ELSE "~"]
(* --- appending: stored variables keep their own dimensions; vals has x.n parts ----- *)
(* data that can be taken up without changing a value *)
Holds(s, d) ==
    CASE s.k = d.k -> s.k = "U" \/ d.n <= s.n
      [] d.k = "b" -> s.k \in {"i", "f", "c"}
      [] d.k = "i" -> s.k \in {"f", "c"} /\ s.n = 8
      [] d.k = "f" -> s.k = "c" /\ d.n <= s.n
      [] OTHER -> FALSE
SameDims(v, w) == /\ Len(v.dims) = Len(w.dims) /\ Range(Names(v.dims)) = Range(Names(w.dims))
                  /\ \A a, b \in 1..Len(v.dims) : v.dims[a].name = w.dims[b].name => Len(v.dims[a].data) = Len(w.dims[b].data)
Fits(file, b, x) ==
    /\ file.ver = "0.2" /\ file.exp /\ file.x.name = x.name
    /\ \A k \in 1..Len(file.vars) : LET q == ByName(b.vars, file.vars[k].n) IN
         q # 0 /\ SameDims(file.vars[k], b.vars[q]) /\ Holds(file.vars[k].dt, b.vars[q].dt)
(* the values of w over the dimensions of v in the order of v *)
LinedUp(v, w) ==
    LET sh == Shape(v)
        at(k) == FirstIdx(w.dims, LAMBDA d : d.name = v.dims[k].name)
        back(ix) == [m \in 1..Len(w.dims) |-> ix[CHOOSE k \in 1..Len(v.dims) : at(k) = m]]
    IN IF v.dims = <<>> THEN w.vals ELSE [q \in 1..Len(w.vals) |-> w.vals[Ravel(back(Unravel(q - 1, sh)), Shape(w)) + 1]]
(* vals: first dimension, then the parts, then the other dimensions *)
Grown(v, n, w) ==
    LET new == LinedUp(v, w)
        sh == Shape(v)
        rest == ProdSeq(Tail(sh))
    IN IF v.dims = <<>> THEN v.vals \o new
       ELSE FlattenSeq([q \in 1..sh[1] |-> SubSeq(v.vals, (q - 1) * n * rest + 1, q * n * rest) \o SubSeq(new, (q - 1) * rest + 1, q * rest)])
Appended(file, b) ==
    [file EXCEPT !.vars = [k \in 1..Len(file.vars) |-> [file.vars[k] EXCEPT !.vals = Grown(file.vars[k], file.x.n, b.vars[ByName(b.vars, file.vars[k].n)])]],
                 !.x.n = @ + 1]
(* --- what is read ------------------------------------------------------------------ *)
ReadVars(file) == IF ~file.exp THEN file.vars
    ELSE [k \in 1..Len(file.vars) |-> LET v == file.vars[k] IN
            [v EXCEPT !.dims = IF v.dims = <<>> THEN <<XDim(file.x)>> ELSE <<v.dims[1], XDim(file.x)>> \o Tail(v.dims)]]
ReadDims(file) == IF file.exp THEN Append(file.ivars, XDim(file.x)) ELSE file.ivars
=============================================================================
