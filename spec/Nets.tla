-------------------------------- MODULE Nets --------------------------------
(* Network parameters, cascades, noise correlation and matrix algebra.        *)
(* A network is [kind, z0, a]: a is a labelled array whose two last           *)
(* dimensions are the matrix rows and columns.  What a parameter matrix means *)
(* is the linear relation it puts between port voltages v and currents i:     *)
(*    b = M x    with (b, x) made from (v, i) by the kind's definition.       *)
(* All arithmetic is exact in GF(P); conjugates are carried alongside.        *)
(* Waves are used without the common factor 1/(2 sqrt(Z0)).                   *)
EXTENDS ArraySpec

(* ---- small linear algebra over GF(P): matrices are sequences of rows ------- *)
Dot(r, c) == SumP([k \in 1..Len(r) |-> MulP(r[k], c[k])])
MatVec(M, x) == TLCEval([r \in 1..Len(M) |-> Dot(M[r], x)])
ColOf(M, c) == TLCEval([r \in 1..Len(M) |-> M[r][c]])
MatMul(A, B) == TLCEval([r \in 1..Len(A) |-> [c \in 1..Len(B[1]) |-> Dot(A[r], ColOf(B, c))]])
MatSub(A, B) == TLCEval([r \in 1..Len(A) |-> [c \in 1..Len(A[1]) |-> SubP(A[r][c], B[r][c])]])
MatT(A) == TLCEval([c \in 1..Len(A[1]) |-> ColOf(A, c)])
Eye(n) == [r \in 1..n |-> [c \in 1..n |-> IF r = c THEN 1 ELSE 0]]
UnitVec(n, k) == [r \in 1..n |-> IF r = k THEN 1 ELSE 0]
ZeroVec(n) == Const(n, 0)
ScaleM(s, A) == TLCEval([r \in 1..Len(A) |-> [c \in 1..Len(A[1]) |-> MulP(s, A[r][c])]])
RECURSIVE DetP(_)
Minor(A, r, c) == TLCEval([p \in 1..(Len(A) - 1) |-> RemoveAt(A[IF p < r THEN p ELSE p + 1], c)])
DetP(A) == IF Len(A) = 0 THEN 1 ELSE IF Len(A) = 1 THEN A[1][1] % P
           ELSE SumP([c \in 1..Len(A) |-> LET t == MulP(A[1][c], DetP(Minor(A, 1, c))) IN IF c % 2 = 1 THEN t ELSE NegP(t)])
Cofactor(A, r, c) == LET t == DetP(Minor(A, r, c)) IN IF (r + c) % 2 = 0 THEN t ELSE NegP(t)
InvM(A) == LET d == TLCEval(InvP(DetP(A))) n == Len(A) IN TLCEval([r \in 1..n |-> [c \in 1..n |-> MulP(d, Cofactor(A, c, r))]])
SameM(A, B) == Len(A) = Len(B) /\ \A r \in 1..Len(A) : Len(A[r]) = Len(B[r]) /\ \A c \in 1..Len(A[r]) : A[r][c] % P = B[r][c] % P

(* ---- matrices of a labelled array ------------------------------------------- *)
IsMat(a) == NDim(a) >= 2 /\ a.dims[NDim(a) - 1].cls = "DimMatrix_i" /\ a.dims[NDim(a)].cls = "DimMatrix_j"
Rows(a) == a.shape[NDim(a) - 1]
Cols(a) == a.shape[NDim(a)]
OuterShape(a) == Take(a.shape, NDim(a) - 2)
OuterDims(a) == Take(a.dims, NDim(a) - 2)
Res(a, k) == IF a.num = "gf" /\ a.vals[k] = -1 THEN -1 ELSE a.vals[k] % P
(* matrix at outer index ix (0-based); s is a.vals or the conjugates *)
MatAt(a, s, ix) == TLCEval([r \in 1..Rows(a) |-> [c \in 1..Cols(a) |-> s[Ravel(ix \o <<r - 1, c - 1>>, a.shape) + 1] % P]])
Points(a) == [k \in 1..Size(OuterShape(a)) |-> Unravel(k - 1, OuterShape(a))]
Exact(a) == a.num = "int" \/ (\A k \in 1..Len(a.vals) : a.vals[k] # -1)
(* the point of operand x under the point ix of the array r: by dimension, a missing or length-one one repeated *)
Under(r, ix, x) == [j \in 1..(NDim(x) - 2) |->
      LET k == FirstIdx(OuterDims(r), LAMBDA d : Answers(x.dims[j], d)) IN IF x.shape[j] = 1 THEN 0 ELSE ix[k]]

(* ---- the terminal relations ---------------------------------------------------- *)
TwoPortKinds == {"G", "H", "A", "T", "Tp"}
Kinds == {"Z", "Y", "S"} \cup TwoPortKinds
WaveKinds == {"S", "T", "Tp"}
Half2 == (P + 1) \div 2
BX(kind, z, v, i) ==
    LET n == Len(v)
        bw == TLCEval([k \in 1..n |-> SubP(v[k], MulP(z, i[k]))])
        aw == TLCEval([k \in 1..n |-> AddP(v[k], MulP(z, i[k]))])
    IN CASE kind = "Z" -> [b |-> v, x |-> i]
         [] kind = "Y" -> [b |-> i, x |-> v]
         [] kind = "S" -> [b |-> bw, x |-> aw]
         [] kind = "G" -> [b |-> <<i[1], v[2]>>, x |-> <<v[1], i[2]>>]
         [] kind = "H" -> [b |-> <<v[1], i[2]>>, x |-> <<i[1], v[2]>>]
         [] kind = "A" -> [b |-> <<v[1], i[1]>>, x |-> <<v[2], NegP(i[2])>>]
         [] kind = "T" -> [b |-> <<bw[1], aw[1]>>, x |-> <<aw[2], bw[2]>>]
         [] kind = "Tp" -> [b |-> <<aw[1], bw[1]>>, x |-> <<bw[2], aw[2]>>]
FromWaves(z, bw, aw) == LET hz == TLCEval(MulP(Half2, InvP(z))) IN
                        TLCEval([v |-> [k \in 1..Len(bw) |-> MulP(Half2, AddP(aw[k], bw[k]))],
                                 i |-> [k \in 1..Len(bw) |-> MulP(hz, SubP(aw[k], bw[k]))]])
VI(kind, z, b, x) ==
    CASE kind = "Z" -> [v |-> b, i |-> x]
      [] kind = "Y" -> [v |-> x, i |-> b]
      [] kind = "S" -> FromWaves(z, b, x)
      [] kind = "G" -> [v |-> <<x[1], b[2]>>, i |-> <<b[1], x[2]>>]
      [] kind = "H" -> [v |-> <<b[1], x[2]>>, i |-> <<x[1], b[2]>>]
      [] kind = "A" -> [v |-> <<b[1], x[1]>>, i |-> <<b[2], NegP(x[2])>>]
      [] kind = "T" -> FromWaves(z, <<b[1], x[2]>>, <<b[2], x[1]>>)
      [] kind = "Tp" -> FromWaves(z, <<b[2], x[1]>>, <<b[1], x[2]>>)
(* every excitation of (k1, z1, M1) satisfies (k2, z2, M2) *)
SameNetwork(k1, z1, M1, k2, z2, M2) ==
    \A k \in 1..Len(M1) :
        LET s == TLCEval(VI(k1, z1, ColOf(M1, k), UnitVec(Len(M1), k)))
            w == TLCEval(BX(k2, z2, s.v, s.i))
        IN w.b = MatVec(M2, w.x)
(* the excitations k2 uses, for the independent ones of (k1, M1): conversion exists iff invertible *)
Bcols(k1, z1, M1, k2, z2) == TLCEval([k \in 1..Len(M1) |-> LET s == VI(k1, z1, ColOf(M1, k), UnitVec(Len(M1), k)) IN BX(k2, z2, s.v, s.i)])
Xmat(k1, z1, M1, k2, z2) == LET q == Bcols(k1, z1, M1, k2, z2) IN MatT([k \in 1..Len(M1) |-> q[k].x])
Bmat(k1, z1, M1, k2, z2) == LET q == Bcols(k1, z1, M1, k2, z2) IN MatT([k \in 1..Len(M1) |-> q[k].b])
Exists2(k1, z1, M1, k2, z2) == DetP(Xmat(k1, z1, M1, k2, z2)) # 0
ConvM(k1, z1, M1, k2, z2) == MatMul(Bmat(k1, z1, M1, k2, z2), InvM(Xmat(k1, z1, M1, k2, z2)))
SForm(net, M) == ConvM(net.kind, net.z0, M, "S", 50)

(* ---- joining port 2 of A to port 1 of B: b2 = a1', a2 = b1' (S form, one reference) ---- *)
JoinDen(A, B) == SubP(1, MulP(A[2][2], B[1][1]))
Join(A, B) ==
    LET d == TLCEval(InvP(JoinDen(A, B)))
        row(k) ==     \* outer excitation k: k = 1 -> a1 = 1, k = 2 -> a2' = 1
            LET a1 == IF k = 1 THEN 1 ELSE 0
                a2 == IF k = 2 THEN 1 ELSE 0
                b2 == TLCEval(MulP(d, AddP(MulP(A[2][1], a1), MulP(A[2][2], MulP(B[1][2], a2)))))
                b1p == TLCEval(AddP(MulP(B[1][1], b2), MulP(B[1][2], a2)))
            IN <<AddP(MulP(A[1][1], a1), MulP(A[1][2], b1p)), AddP(MulP(B[2][1], b2), MulP(B[2][2], a2))>>
    IN MatT(<<row(1), row(2)>>)
Through == <<<<0, 1>>, <<1, 0>>>>

(* ---- noise: b = M x + n; C is the correlation of n (unit 4 k T0) ------------------ *)
(* noise of kind k2 that gives noise e_k in kind k1: W maps k2's noise to k1's *)
NoiseMap(k1, z1, M1, k2, z2) ==
    LET n == Len(M1)
        col(k) == LET s == VI(k2, z2, UnitVec(n, k), ZeroVec(n))
                      w == BX(k1, z1, s.v, s.i)
                  IN [r \in 1..n |-> SubP(w.b[r], MatVec(M1, w.x)[r])]
    IN MatT([k \in 1..n |-> col(k)])
WaveScale(kind, z) == IF kind \in WaveKinds THEN MulP(4, z) ELSE 1       \* scaled waves: C * 4 Z0
(* C1, C2 (value and conjugate transposed separately) describe the same noise *)
SameNoise(k1, z1, M1, M1c, C1, k2, z2, C2) ==
    LET W == NoiseMap(k1, z1, M1, k2, z2)
        Wc == NoiseMap(k1, z1, M1c, k2, z2)
        lhs == ScaleM(WaveScale(k2, z2), MatMul(MatMul(W, C2), MatT(Wc)))
    IN SameM(lhs, ScaleM(WaveScale(k1, z1), C1))
(* thermal noise of a passive network at T0, unit 4 k T0: (Y + Y^H)/2, (Z + Z^H)/2, (I - S S^H)/4 *)
Thermal(kind, M, Mc) ==
    IF kind = "S" THEN ScaleM(InvP(4), MatSub(Eye(Len(M)), MatMul(M, MatT(Mc))))
    ELSE ScaleM(Half2, [r \in 1..Len(M) |-> [c \in 1..Len(M) |-> AddP(M[r][c], Mc[c][r])]])
(* chain correlation matrix from the noise parameters (unit 4 k T0) *)
ChainNoise(rn, fmin, y, yc) ==
    LET off(q) == SubP(MulP(Half2, SubP(fmin, 1)), MulP(rn, q)) IN
    <<<<rn, off(yc)>>, <<off(y), MulP(rn, MulP(y, yc))>>>>
=============================================================================
