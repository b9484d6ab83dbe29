------------------------------ MODULE MCTouch -------------------------------
(* Bounded model: a Touchstone file is written line by line by a writer that *)
(* knows what it writes (truth); reading it must find exactly that.          *)
EXTENDS Touchstone, Json
CONSTANTS MaxRec, MaxNoise, HistOn
VARIABLES file, n, recs, noise, broken
vars == <<file, n, recs, noise, broken>>
Nr(k) == <<k % P, k, -1, -1, -1>>
Patterns(m) == CASE m = 1 -> {<<3>>, <<1, 2>>}
                 [] m = 2 -> {<<9>>, <<5, 4>>, <<3, 2, 2, 2>>, <<1, 8>>}
                 [] m = 3 -> {<<7, 6, 6>>, <<19>>, <<9, 8, 2>>}
Opts == {[t |-> "o", unit |-> u, par |-> "S", fmt |-> "RI", r |-> r] : u \in {"HZ", "GHZ"}, r \in {<<>>, <<75>>}}
RECURSIVE Cut(_, _)
Cut(s, pat) == IF pat = <<>> THEN <<>> ELSE <<[t |-> "d", n |-> Take(s, Head(pat))]>> \o Cut(Drop(s, Head(pat)), Tail(pat))
Init == /\ n \in 1..3 /\ recs = <<>> /\ noise = <<>> /\ broken = FALSE
        /\ \E o \in Opts, c \in {<<>>, <<[t |-> "c", x |-> "a remark"]>>} : file = c \o <<o>>
Record(low, pat) ==
    /\ Len(recs) < MaxRec /\ noise = <<>> /\ ~broken
    /\ LET k == Len(recs) + 1
           rec == <<Nr(10 * k)>> \o [q \in 1..(Width(n) - 1) |-> Nr((IF low THEN -500 ELSE 1000) + 20 * k + q)]
       IN recs' = Append(recs, rec) /\ file' = file \o Cut(rec, pat)
    /\ UNCHANGED <<n, noise, broken>>
NoiseRec ==
    /\ n = 2 /\ recs # <<>> /\ Len(noise) < MaxNoise /\ ~broken
    /\ LET k == Len(noise) + 1
           rec == <<Nr(3 + 7 * k)>> \o [q \in 1..4 |-> IF q = 1 THEN Nr(20 * k) ELSE Nr(200 + 10 * k + q)]
       IN /\ k = 1 => 3 + 7 * k <= Rank(recs[Len(recs)][1])
          /\ noise' = Append(noise, rec) /\ file' = Append(file, [t |-> "d", n |-> rec])
    /\ UNCHANGED <<n, recs, broken>>
Remark == /\ ~broken /\ file' = Append(file, [t |-> "c", x |-> "more"]) /\ Cardinality({k \in 1..Len(file) : file[k].t = "c"}) < 1
          /\ UNCHANGED <<n, recs, noise, broken>>
(* things that make a file malformed *)
Break == /\ ~broken /\ broken' = TRUE /\ recs # <<>>
         /\ \E l \in {[t |-> "w"], [t |-> "x"], [t |-> "o", unit |-> "HZ", par |-> "S", fmt |-> "RI", r |-> <<50>>],
                      [t |-> "d", n |-> <<Nr(5000)>>], [t |-> "d", n |-> [q \in 1..(Width(n) + 5) |-> Nr(9000 + q)]]} : file' = Append(file, l)
         /\ UNCHANGED <<n, recs, noise>>
Next == (\E low \in BOOLEAN, pat \in Patterns(n) : Record(low, pat)) \/ NoiseRec \/ Remark \/ Break
Spec == Init /\ [][Next]_vars
InvTruth == (recs # <<>> /\ ~broken) =>
    /\ Valid(file) /\ n \in PortCounts(DataOf(file))
    /\ Parsed(DataOf(file), n) = [ok |-> TRUE, recs |-> recs, noise |-> noise]
(* with one record per frequency on the usual lines the port count is certain *)
InvCertain == (recs # <<>> /\ ~broken) => PortCounts(DataOf(file)) = {n} /\ MinOf(Fits(DataOf(file), FALSE)) = n
(* the last two breaks leave the true reading incomplete: it is not among the readings *)
InvBroken == broken => ~(Valid(file) /\ n \in Fits(DataOf(file), FALSE))
Emit == (HistOn /\ recs # <<>>) => PrintT("BEHAVIOUR " \o ToJson([file |-> file]))
=============================================================================
