-------------------------------- MODULE Calc --------------------------------
(* The estimation objective and its derivatives.                            *)
EXTENDS Models

(* Units of the likelihood: observations, or individuals for mixed logit.   *)
NUnits(C) == IF C.M.type = "Mixed" THEN C.S.nind ELSE C.S.nobs
UnitOf(C, r) == IF C.M.type = "Mixed" THEN C.S.ii[r] ELSE C.S.oi[r]
(* weights are given per row, constant within a unit *)
UnitWeight(C, w, u) == w[CHOOSE r \in 1..C.S.n : UnitOf(C, r) = u]

(* log-likelihood of each unit *)
UnitLL(C, th, pos) ==
    IF C.M.type = "Mixed"
    THEN LET kp == KernelProbs(C, th)
         IN  Tab([i \in 1..C.S.nind |->
               LET q == C.S.iobs[i]
               IN  RLn(RSum([d \in 1..NDraws(C) |->
                      RProd([k \in 1..Len(q) |-> kp[d][C.S.cho[q[k]]]])])
                     \oslash R(NDraws(C)))])
    ELSE LET p == ProbsAt(C, th, pos)
         IN  Tab([o \in 1..C.S.nobs |-> RLn(p[C.S.cho[o]])])

(* Ridge penalty: squared distance from the null values (zero; for the nests *)
(* of a nested logit, dissimilarity parameter one).                         *)
Penalty(C, th, ridge) ==
    LET nn  == NNest(C.M, J_(C))
        lam == Lambdas(C, th)
        pen == Tab([k \in 1..Len(th) |-> IF k <= nn THEN Sq(lam[k] \ominus One) ELSE Sq(th[k])])
    IN  ridge \otimes RSum(pen)

Objective(C, th, w, ridge, pos) ==
    LET u == UnitLL(C, th, pos)
    IN  RSum([k \in 1..Len(u) |-> UnitWeight(C, w, k) \otimes u[k]])
          \ominus Penalty(C, th, ridge)
LogLik(C, th, w, ridge) == Objective(C, th, w, ridge, SignOf(IndexV(C, th)))

(* Derivatives: central differences of the definitions above, evaluated with *)
(* 40 digits and step 1e-13 (truncation error of order 1e-26).              *)
Step == R("1e-13")
Bump(th, k, e) == Tab([th EXCEPT ![k] = @ \oplus e])

(* per-unit scores: Scores[k][u] = d UnitLL_u / d theta_k *)
Scores(C, th) ==
    LET pos == SignOf(IndexV(C, th))
    IN  Tab([k \in 1..Len(th) |->
          LET a == UnitLL(C, Bump(th, k, Step), pos)
              b == UnitLL(C, Bump(th, k, Neg(Step)), pos)
          IN  [u \in 1..Len(a) |-> (a[u] \ominus b[u]) \oslash (Two \otimes Step)]])

PenaltyDeriv(C, th, ridge, k) ==
    (Penalty(C, Bump(th, k, Step), ridge) \ominus Penalty(C, Bump(th, k, Neg(Step)), ridge))
       \oslash (Two \otimes Step)

GradientFrom(C, th, w, ridge, sc) ==
    Tab([k \in 1..Len(th) |->
       RSum([u \in 1..NUnits(C) |-> UnitWeight(C, w, u) \otimes sc[k][u]])
         \ominus PenaltyDeriv(C, th, ridge, k)])
Gradient(C, th, w, ridge) == GradientFrom(C, th, w, ridge, Scores(C, th))

(* weighted outer product of scores *)
OuterScores(C, w, sc) ==
    LET wt == Tab([u \in 1..NUnits(C) |-> UnitWeight(C, w, u)])
    IN  Tab([k \in 1..Len(sc) |-> [l \in 1..Len(sc) |->
          RSum([u \in 1..NUnits(C) |-> wt[u] \otimes (sc[k][u] \otimes sc[l][u])])]])

(* Expected second derivatives of a logit-type model:                       *)
(*   - sum_o w_o  D_o' (diag p_o - p_o p_o') D_o,   D = d h / d theta       *)
ExpectedHessian(C, th, w) ==
    LET V   == IndexV(C, th)
        pos == SignOf(V)
        p   == ProbsAt(C, th, pos)
        K   == Len(th)
        D   == Tab([k \in 1..K |->
                 LET up == Bump(th, k, Step)  dn == Bump(th, k, Neg(Step))
                     a == Trans(C, up, IndexV(C, up), pos)
                     b == Trans(C, dn, IndexV(C, dn), pos)
                 IN  [r \in 1..C.S.n |-> (a[r] \ominus b[r]) \oslash (Two \otimes Step)]])
        \* mean of column k within observation o
        mu  == Tab([k \in 1..K |-> [o \in 1..C.S.nobs |->
                 LET q == C.S.rows[o]
                 IN  RSum([j \in 1..Len(q) |-> p[q[j]] \otimes D[k][q[j]]])]])
    IN  Tab([k \in 1..K |-> [l \in 1..K |->
          Neg(RSum([o \in 1..C.S.nobs |->
             LET q == C.S.rows[o]
             IN  UnitWeight(C, w, o) \otimes
                 (RSum([j \in 1..Len(q) |-> p[q[j]] \otimes (D[k][q[j]] \otimes D[l][q[j]])])
                    \ominus (mu[k][o] \otimes mu[l][o]))]))]])

AddDiag(A, x) == Tab([k \in 1..Len(A) |-> [l \in 1..Len(A) |->
                    IF k = l THEN A[k][l] \oplus x ELSE A[k][l]]])
NegM(A) == Tab([k \in 1..Len(A) |-> [l \in 1..Len(A) |-> Neg(A[k][l])]])

(* Nested and mixed logit report constrained parameters with a unit block. *)
Masked(A, cpos) ==
    Tab([k \in 1..Len(A) |-> [l \in 1..Len(A) |->
       IF k \in cpos \/ l \in cpos THEN (IF k = l THEN Neg(One) ELSE Zero) ELSE A[k][l]]])

(* The documented second-derivative matrix of each model *)
Hessian(C, th, w, ridge) ==
    AddDiag(IF C.M.type \in {"Nested", "Mixed"}
            THEN NegM(OuterScores(C, w, Scores(C, th)))
            ELSE ExpectedHessian(C, th, w),
            Neg(Two \otimes ridge))
Information(C, th, w, ridge) ==
    AddDiag(OuterScores(C, w, Scores(C, th)), Neg(Two \otimes ridge))
=============================================================================
