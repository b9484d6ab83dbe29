----------------------------- MODULE Touchstone -----------------------------
(* The Touchstone (version 1) format.  A file is a sequence of lines:        *)
(*   [t |-> "c", x |-> text]                  comment                        *)
(*   [t |-> "o", unit, par, fmt, r]           option line, r = <<>> or <<v>> *)
(*   [t |-> "x"]                              malformed option line          *)
(*   [t |-> "d", n |-> numbers]               data                           *)
(*   [t |-> "w"]                              data that is no number         *)
(* A record starts on a line of its own, holds a frequency and one pair per  *)
(* matrix element and may extend over lines; frequencies increase.  In a     *)
(* two-port file a drop in frequency starts the noise section with records   *)
(* of five numbers.                                                          *)
EXTENDS FileBase
Lines(file, t) == SelectSeq(file, LAMBDA l : l.t = t)
DataOf(file) == LET d == Lines(file, "d") IN [k \in 1..Len(d) |-> d[k].n]
CommentsOf(file) == LET d == Lines(file, "c") IN [k \in 1..Len(d) |-> d[k].x]
Count(data) == SumSeq([k \in 1..Len(data) |-> Len(data[k])])

(* pairs: lines break between pairs only                                    *)
(* the records of width w the lines group into; ok = FALSE when they do not.  *)
(* rest: the lines from the first record on whose frequency does not increase *)
RECURSIVE Group(_, _, _, _, _, _)
Group(data, k, w, recs, cur, pairs) ==
    IF k > Len(data)
    THEN [ok |-> cur = <<>>, recs |-> recs, rest |-> <<>>]
    ELSE IF cur = <<>> /\ recs # <<>> /\ Rank(data[k][1]) <= Rank(recs[Len(recs)][1])
    THEN [ok |-> TRUE, recs |-> recs, rest |-> Drop(data, k - 1)]
    ELSE LET c == cur \o data[k] IN
         IF Len(c) > w \/ (pairs /\ Len(c) % 2 = 0) THEN [ok |-> FALSE, recs |-> <<>>, rest |-> <<>>]
         ELSE IF Len(c) = w THEN Group(data, k + 1, w, Append(recs, c), <<>>, pairs)
         ELSE Group(data, k + 1, w, recs, c, pairs)
Width(n) == 2 * n * n + 1
Parse(data, n, pairs) ==
    LET g == Group(data, 1, Width(n), <<>>, <<>>, pairs) IN
    IF ~g.ok \/ g.recs = <<>> THEN [ok |-> FALSE, recs |-> <<>>, noise |-> <<>>]
    ELSE IF g.rest = <<>> THEN [ok |-> TRUE, recs |-> g.recs, noise |-> <<>>]
    ELSE IF n # 2 THEN [ok |-> FALSE, recs |-> <<>>, noise |-> <<>>]
    ELSE LET m == Group(g.rest, 1, 5, <<>>, <<>>, FALSE) IN
         [ok |-> m.ok /\ m.rest = <<>> /\ m.recs # <<>>, recs |-> g.recs, noise |-> m.recs]
(* port counts the data fits; usual: no line break inside a pair *)
Fits(data, pairs) == {n \in 1..8 : Width(n) <= Count(data) /\ Parse(data, n, pairs).ok}
PortCounts(data) == LET u == Fits(data, TRUE) IN IF u # {} THEN u ELSE Fits(data, FALSE)
Parsed(data, n) == Parse(data, n, FALSE)

Mult(u) == CASE u = "HZ" -> 1 [] u = "KHZ" -> PowP(10, 3) [] u = "MHZ" -> PowP(10, 6) [] u = "GHZ" -> PowP(10, 9)
             [] u = "THZ" -> PowP(10, 12) [] u = "PHZ" -> PowP(10, 15)
(* position of element (r, c) among the pairs of a record *)
Pos(n, r, c) == IF n = 2 THEN (c - 1) * n + r ELSE (r - 1) * n + c
Elem(fmt, rec, n, r, c) == LET p == Pos(n, r, c) IN CplxText(fmt, rec[2 * p], rec[2 * p + 1])
Freqs(opt, recs) == [k \in 1..Len(recs) |-> RealText(Times(V(recs[k][1]), Mult(opt.unit)))]
Z0Of(opt) == IF opt.r = <<>> THEN 50 ELSE opt.r[1]
BlockVars(opt, data, n) ==
    LET p == Parsed(data, n)
        f == FDim("DimSweep", "freq", Freqs(opt, p.recs), "Hz")
        fn == IF Freqs(opt, p.noise) = f.data THEN f ELSE FDim("DimSweep", "freqn", Freqs(opt, p.noise), "Hz")
        m == Len(p.recs)
        mat == FVar(opt.par, "c", <<f, MatI(n), MatJ(n)>>,
                    [k \in 1..m * n * n |-> LET ix == Unravel(k - 1, <<m, n, n>>) IN Elem(opt.fmt, p.recs[ix[1] + 1], n, ix[2] + 1, ix[3] + 1)], "?")
        z == FVar("Z0", "n", <<>>, <<RealText(Z0Of(opt))>>, "Ohm")
        N(k) == p.noise[k]
        nz == IF p.noise = <<>> THEN <<>> ELSE
              <<FVar("Fmin", "n", <<fn>>, [k \in 1..Len(p.noise) |-> RealText(Times(N(k)[2][5], N(k)[2][5]))], "?"),
                FVar("Gopt", "c", <<fn>>, [k \in 1..Len(p.noise) |-> CplxText(opt.fmt, N(k)[3], N(k)[4])], "?"),
                FVar("Rn", "n", <<fn>>, [k \in 1..Len(p.noise) |-> RealText(Times(V(N(k)[5]), Z0Of(opt)))], "?")>>
    IN <<mat, z>> \o nz
GoodOption(file) == Len(Lines(file, "o")) = 1 /\ Lines(file, "x") = <<>> /\ Lines(file, "o")[1].fmt \in {"RI", "MA", "DB"}
Valid(file) == GoodOption(file) /\ Lines(file, "w") = <<>> /\ PortCounts(DataOf(file)) # {}
OptOf(file) == Lines(file, "o")[1]
(* what reading may return: one block for each port count the data fits *)
Readings(file) == {BlockVars(OptOf(file), DataOf(file), n) : n \in PortCounts(DataOf(file))}
=============================================================================
