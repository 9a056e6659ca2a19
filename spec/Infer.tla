------------------------------- MODULE Infer -------------------------------
(* Parameter labels, inference and fit statistics of a fitted model.        *)
EXTENDS Calc, Table

(* ---- labels --------------------------------------------------------------- *)
(* L : [ spec, names |-> as in Table;  nest, shape, int |-> label sequences *)
(*       given by the user, << >> for defaults; mixed |-> labels of the     *)
(*       coefficients with a random component ]                             *)
Numbered(prefix, n) == [k \in 1..n |-> prefix \o ToString(k)]
NestLabels(M, J, L)  == IF NNest(M, J) = 0 THEN << >> ELSE L.nest
ShapeLabels(M, J, L) == IF NShape(M, J) = 0 THEN << >>
                        ELSE IF L.shape = << >> THEN Numbered("Shape_", NShape(M, J)) ELSE L.shape
IntLabels(M, J, L)   == IF NInt(M, J) = 0 THEN << >>
                        ELSE IF L.int = << >> THEN Numbered("Outside_ASC_", NInt(M, J)) ELSE L.int
CoefLabels(T, M, L)  == LabelsOf(T.alt, L.spec, L.names)
                        \o [k \in 1..NSpread(M) |->
                              "Sigma " \o LabelsOf(T.alt, L.spec, L.names)[M.mix[k]]]
AllLabels(T, M, L) ==
    LET J == Cardinality(Rng(T.alt))
    IN  NestLabels(M, J, L) \o ShapeLabels(M, J, L) \o IntLabels(M, J, L) \o CoefLabels(T, M, L)

Zip(a, b) == [k \in 1..Len(a) |-> << a[k], b[k] >>]
Part(s, from, n) == SubSeq(s, from + 1, from + n)

(* the groups of a reported parameter vector: sequences of <<label, value>> *)
Groups(T, M, L, th) ==
    LET J == Cardinality(Rng(T.alt))
        all == Zip(AllLabels(T, M, L), th)
        a == NNest(M, J)
        b == a + NShape(M, J)
        c == b + NInt(M, J)
    IN  [ params |-> all, nests |-> Part(all, 0, a), shapes |-> Part(all, a, b - a),
          intercepts |-> Part(all, b, c - b), coefs |-> Part(all, c, Len(all) - c) ]

(* ---- matrices ---------------------------------------------------------------- *)
MProdCell(A, B, i, j) == RSum([k \in 1..Len(B) |-> A[i][k] \otimes B[k][j]])
AbsProdCell(A, B, i, j) == RSum([k \in 1..Len(B) |-> Abs(A[i][k] \otimes B[k][j])])
MProd(A, B) == Tab([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> MProdCell(A, B, i, j)]])
AbsProd(A, B) == Tab([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> AbsProdCell(A, B, i, j)]])
(* A = B up to rounding of a computation of size S *)
Within(x, y, size) == Abs(x \ominus y) \preceq ((R("1e-7") \otimes size) \oplus R("1e-9"))

(* cov is minus the inverse of H: floating point inversion leaves a small   *)
(* residual on one side                                                     *)
NegUnit(A, B) ==
    \A i, j \in 1..Len(A) :
       Within(MProdCell(A, B, i, j), IF i = j THEN Neg(One) ELSE Zero, AbsProdCell(A, B, i, j))
IsNegInverse(cov, H) == NegUnit(H, cov) \/ NegUnit(cov, H)
(* rob = cov I cov *)
IsSandwich(rob, cov, I) ==
    LET P == MProd(MProd(cov, I), cov)
        S == AbsProd(AbsProd(cov, I), cov)
    IN  \A i, j \in 1..Len(P) : Within(rob[i][j], P[i][j], S[i][j])

(* ---- scalars ----------------------------------------------------------------- *)
Aic(ll, k)       == (Two \otimes R(k)) \ominus (Two \otimes ll)
Bic(ll, k, n)    == (RLn(R(n)) \otimes R(k)) \ominus (Two \otimes ll)
Rho(ll, null)    == One \ominus (ll \oslash null)
RhoBar(ll, null, k) == One \ominus ((ll \ominus R(k)) \oslash null)
TwoSided(t)      == Two \otimes (One \ominus RPhi(Abs(t)))
=============================================================================
