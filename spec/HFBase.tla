------------------------------- MODULE HFBase -------------------------------
(* Common vocabulary of all hftools specifications:                          *)
(*  - finite sequences and row-major index arithmetic,                       *)
(*  - exact arithmetic in the prime field GF(P).  Numbers of the             *)
(*    implementation are (Gaussian) rationals; the harness reconstructs them *)
(*    exactly from the floats and maps them with the ring homomorphism       *)
(*    Q[i] -> GF(P) (P = 46337 is 1 mod 4, so -1 has the square root ImUnit).*)
(*    P*P < 2^31 keeps every product inside TLC's integers.                  *)
EXTENDS Integers, Sequences, FiniteSets

P == 46337
ImUnit == 2601

RECURSIVE SumSeq(_), ProdSeq(_)
SumSeq(s)  == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))

Range(s) == {s[i] : i \in 1..Len(s)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a

(* --- sequences ------------------------------------------------------- *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Drop(s, k) == SubSeq(s, k + 1, Len(s))
Take(s, k) == SubSeq(s, 1, IF k > Len(s) THEN Len(s) ELSE k)
RemoveAt(s, k) == Take(s, k - 1) \o Drop(s, k)
InsertBefore(s, k, x) == Take(s, k - 1) \o <<x>> \o Drop(s, k - 1)
ReplaceAt(s, k, x) == [s EXCEPT ![k] = x]
Const(n, x) == [i \in 1..n |-> x]
IotaFrom(a, n) == [i \in 1..n |-> a + i - 1]
RECURSIVE FlattenSeq(_)
FlattenSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq(Tail(ss))
(* first index whose element satisfies Test, 0 if none *)
FirstIdx(s, Test(_)) ==
    LET hits == {i \in 1..Len(s) : Test(s[i])} IN IF hits = {} THEN 0 ELSE MinOf(hits)
(* the elements with index in I, in index order *)
RECURSIVE PickIdx(_, _)
PickIdx(s, I) == IF I = {} THEN <<>>
                 ELSE LET k == MinOf(I) IN <<s[k]>> \o PickIdx(s, I \ {k})
SelectIdx(s, Test(_)) == PickIdx(s, {i \in 1..Len(s) : Test(i)})
(* stable sort by an integer key; returns the permutation of 1..Len(s) *)
StableOrder(keys) ==
    LET n == Len(keys)
        rank(i) == Cardinality({j \in 1..n : keys[j] < keys[i] \/ (keys[j] = keys[i] /\ j < i)}) + 1
        r == [i \in 1..n |-> rank(i)]
    IN [k \in 1..n |-> CHOOSE i \in 1..n : r[i] = k]
Permute(s, perm) == [k \in 1..Len(perm) |-> s[perm[k]]]
IsPerm(perm, n) == Len(perm) = n /\ Range(perm) = 1..n

(* --- row-major multi-indices (0-based components) ---------------------- *)
RECURSIVE Unravel(_, _)
Unravel(k, shape) ==
    IF shape = <<>> THEN <<>>
    ELSE LET n == Len(shape) d == shape[n]
         IN Append(Unravel(k \div d, Take(shape, n - 1)), k % d)
RECURSIVE RavelFrom(_, _, _, _)
RavelFrom(ix, shape, k, acc) ==
    IF k > Len(shape) THEN acc ELSE RavelFrom(ix, shape, k + 1, acc * shape[k] + ix[k])
Ravel(ix, shape) == RavelFrom(ix, shape, 1, 0)
Size(shape) == ProdSeq(shape)

(* --- GF(P) -------------------------------------------------------------- *)
Mod(a) == a % P
AddP(a, b) == (a + b) % P
SubP(a, b) == (a - b) % P
MulP(a, b) == ((a % P) * (b % P)) % P
NegP(a) == (-a) % P
RECURSIVE PowP(_, _)
PowP(a, n) == IF n = 0 THEN 1
              ELSE LET h == PowP(a, n \div 2) h2 == (h * h) % P
                   IN IF n % 2 = 0 THEN h2 ELSE (h2 * (a % P)) % P
InvP(a) == PowP(a % P, P - 2)
DivP(a, b) == MulP(a, InvP(b))
RECURSIVE SumP(_)
SumP(s) == IF s = <<>> THEN 0 ELSE AddP(Head(s) % P, SumP(Tail(s)))
RECURSIVE PowI(_, _)
PowI(a, n) == IF n = 0 THEN 1 ELSE a * PowI(a, n - 1)
=============================================================================
