------------------------------- MODULE Models -------------------------------
(* The seven discrete choice models: parameter layout and probabilities.    *)
(* A model M is a record                                                    *)
(*   type  : "MNL","Asym","Cloglog","Scobit","Uneven","Nested","Mixed"      *)
(*   spec  : specification (see Choice)                                     *)
(*   iref  : 0-based position of the reference alternative of the outside   *)
(*           intercepts, -1 if the model has none                           *)
(*   sref  : 0-based position of the reference shape (asymmetric logit)     *)
(*   nests : sequence of nests, each a sequence of alternatives             *)
(*   mix   : positions (1-based) of coefficients with a random component    *)
(*   draws : draws[m][i][d], mixing variable m, individual i, draw d        *)
EXTENDS Choice

NNest(M, J)  == IF M.type = "Nested" THEN Len(M.nests) ELSE 0
NShape(M, J) == CASE M.type = "Asym" -> J - 1
                  [] M.type \in {"Scobit", "Uneven"} -> J
                  [] OTHER -> 0
NInt(M, J)   == IF M.iref >= 0 THEN J - 1 ELSE 0
NBeta(M)     == Len(Coefs(M.spec))
NSpread(M)   == IF M.type = "Mixed" THEN Len(M.mix) ELSE 0
NParam(M, J) == NNest(M,J) + NShape(M,J) + NInt(M,J) + NBeta(M) + NSpread(M)

(* The parameter vector: nests, shapes, outside intercepts, index           *)
(* coefficients, spreads.                                                   *)
PartNest(M, J, th)  == SubSeq(th, 1, NNest(M,J))
PartShape(M, J, th) == SubSeq(th, NNest(M,J) + 1, NNest(M,J) + NShape(M,J))
PartInt(M, J, th)   == LET a == NNest(M,J) + NShape(M,J)
                       IN  SubSeq(th, a + 1, a + NInt(M,J))
PartBeta(M, J, th)  == LET a == NNest(M,J) + NShape(M,J) + NInt(M,J)
                       IN  SubSeq(th, a + 1, a + NBeta(M))
PartSpread(M, J, th) == LET a == NNest(M,J) + NShape(M,J) + NInt(M,J) + NBeta(M)
                        IN  SubSeq(th, a + 1, a + NSpread(M))

(* J values from J-1 free ones, the (0-based) reference position being zero *)
Expand(vals, J, ref) ==
    Tab([j \in 1..J |-> IF j = ref + 1 THEN Zero
                        ELSE IF j <= ref THEN vals[j] ELSE vals[j-1]])

(* Everything about (table, model) that does not depend on parameters *)
Prepare(T, M) ==
    [ T |-> T, M |-> M, S |-> Structure(T), X |-> Design(T, M.spec) ]

J_(C) == C.S.nalt
(* index values without random components *)
IndexV(C, th) ==
    LET b == PartBeta(C.M, J_(C), th)
    IN  Tab([r \in 1..C.S.n |-> Dot(C.X[r], b)])
(* index values for draw d: coefficient = mean + spread * draw of the row's individual *)
IndexVd(C, th, d) ==
    LET b == PartBeta(C.M, J_(C), th)
        s == PartSpread(C.M, J_(C), th)
    IN  Tab([r \in 1..C.S.n |->
          Dot(C.X[r], b) \oplus
          RSum([m \in 1..Len(C.M.mix) |->
             (C.X[r][C.M.mix[m]] \otimes s[m]) \otimes R(C.M.draws[m][C.S.ii[r]][d])])])

(* ---- transformed utilities of the five logit-type models ---------------- *)
(* pos[r]: which branch of the asymmetric transformation row r is on; fixed *)
(* by the caller, so that derivatives at the kink V = 0 take one branch.    *)
SignOf(V) == Tab([r \in 1..Len(V) |-> Zero \preceq V[r]])

Intercepts(C, th) ==
    IF C.M.iref >= 0 THEN Expand(PartInt(C.M, J_(C), th), J_(C), C.M.iref)
    ELSE Tab([j \in 1..J_(C) |-> Zero])

Softmax(e) == LET x == Tab([j \in 1..Len(e) |-> RExp(e[j])])
                  s == RSum(x)
              IN  Tab([j \in 1..Len(e) |-> x[j] \oslash s])

TransAsym(C, th, V, pos) ==
    LET J == J_(C)
        c == Softmax(Expand(PartShape(C.M, J, th), J, C.M.sref))
        lnc == Tab([j \in 1..J |-> RLn(c[j])])
        lnd == Tab([j \in 1..J |-> RLn((One \ominus c[j]) \oslash R(J - 1))])
    IN  Tab([r \in 1..C.S.n |->
          LET j == C.S.ai[r]
          IN  lnc[j] \ominus (V[r] \otimes (IF pos[r] THEN lnc[j] ELSE lnd[j]))])
TransClog(C, th, V) ==
    Tab([r \in 1..C.S.n |-> RLn(RExp(RExp(V[r])) \ominus One)])
TransScobit(C, th, V) ==
    LET s == PartShape(C.M, J_(C), th)
        nat == Tab([j \in 1..J_(C) |-> RExp(s[j])])
    IN  Tab([r \in 1..C.S.n |->
          Neg(RLn(Pow(One \oplus RExp(Neg(V[r])), nat[C.S.ai[r]]) \ominus One))])
TransUneven(C, th, V) ==
    LET s == PartShape(C.M, J_(C), th)
        nat == Tab([j \in 1..J_(C) |-> RExp(s[j])])
    IN  Tab([r \in 1..C.S.n |->
          (V[r] \oplus RLn(One \oplus RExp(Neg(V[r]))))
             \ominus RLn(One \oplus RExp(Neg(nat[C.S.ai[r]] \otimes V[r])))])

Trans(C, th, V, pos) ==
    LET a == Intercepts(C, th)
        h == CASE C.M.type = "MNL"     -> V
               [] C.M.type = "Asym"    -> TransAsym(C, th, V, pos)
               [] C.M.type = "Cloglog" -> TransClog(C, th, V)
               [] C.M.type = "Scobit"  -> TransScobit(C, th, V)
               [] C.M.type = "Uneven"  -> TransUneven(C, th, V)
    IN  Tab([r \in 1..C.S.n |-> h[r] \oplus a[C.S.ai[r]]])

(* exp(h) normalised within each observation *)
LogitProbs(C, h) ==
    LET e == Tab([r \in 1..C.S.n |-> RExp(h[r])])
        d == Tab([o \in 1..C.S.nobs |->
               LET q == C.S.rows[o] IN RSum([k \in 1..Len(q) |-> e[q[k]]])])
    IN  Tab([r \in 1..C.S.n |-> e[r] \oslash d[C.S.oi[r]]])

(* ---- nested logit -------------------------------------------------------- *)
Lambdas(C, th) ==
    LET nu == PartNest(C.M, J_(C), th)
    IN  Tab([b \in 1..Len(nu) |-> One \oslash (One \oplus RExp(Neg(nu[b])))])
NestOf(C, r) == CHOOSE b \in 1..Len(C.M.nests) : C.T.alt[r] \in Rng(C.M.nests[b])
NestedProbsL(C, V, lam) ==
    LET nb == Len(C.M.nests)
        nest == Tab([r \in 1..C.S.n |-> NestOf(C, r)])
        e == Tab([r \in 1..C.S.n |-> RExp(V[r] \oslash lam[nest[r]])])
        \* sum over the available members of nest b in observation o
        sums == Tab([o \in 1..C.S.nobs |-> [b \in 1..nb |->
                   LET q == SelectSeq(C.S.rows[o], LAMBDA r : nest[r] = b)
                   IN  RSum([k \in 1..Len(q) |-> e[q[k]]])]])
        pw == Tab([o \in 1..C.S.nobs |-> [b \in 1..nb |->
                   IF sums[o][b] \preceq Zero THEN Zero ELSE Pow(sums[o][b], lam[b])]])
        den == Tab([o \in 1..C.S.nobs |-> RSum(pw[o])])
    IN  Tab([r \in 1..C.S.n |->
          LET o == C.S.oi[r]  b == nest[r]
          IN  (e[r] \oslash sums[o][b]) \otimes (pw[o][b] \oslash den[o])])

(* ---- mixed logit --------------------------------------------------------- *)
NDraws(C) == IF C.M.type = "Mixed" THEN Len(C.M.draws[1][1]) ELSE 1
KernelProbs(C, th) == Tab([d \in 1..NDraws(C) |-> LogitProbs(C, IndexVd(C, th, d))])
MeanOverDraws(C, kp) ==
    Tab([r \in 1..C.S.n |->
       RSum([d \in 1..NDraws(C) |-> kp[d][r]]) \oslash R(NDraws(C))])

(* ---- choice probabilities of every row ----------------------------------- *)
ProbsAt(C, th, pos) ==
    CASE C.M.type = "Mixed"  -> MeanOverDraws(C, KernelProbs(C, th))
      [] C.M.type = "Nested" -> NestedProbsL(C, IndexV(C, th), Lambdas(C, th))
      [] OTHER -> LogitProbs(C, Trans(C, th, IndexV(C, th), pos))
Probs(C, th) == ProbsAt(C, th, SignOf(IndexV(C, th)))

(* ---- conditioning --------------------------------------------------------- *)
(* How strongly rounding in 53-bit arithmetic is magnified, row by row, when  *)
(* the published formulas are evaluated as they stand.  Executions are        *)
(* compared with the formulas within UnitErr times this gain; where the gain or the *)
(* exponents leave the range of double precision they are not compared.       *)
AbsDot(x, b) == RSum([k \in 1..Len(b) |-> Abs(x[k] \otimes b[k])])
AbsIndex(C, th) ==
    LET b == PartBeta(C.M, J_(C), th)
        a == Intercepts(C, th)
        s == PartSpread(C.M, J_(C), th)
        far(m, i) == LET ds == C.M.draws[m][i]
                     IN  RSum([d \in 1..Len(ds) |-> Abs(R(ds[d]))])
    IN  Tab([r \in 1..C.S.n |->
          ((One \oplus AbsDot(C.X[r], b)) \oplus Abs(a[C.S.ai[r]])) \oplus
          RSum([m \in 1..NSpread(C.M) |->
             Abs(C.X[r][C.M.mix[m]] \otimes s[m]) \otimes far(m, C.S.ii[r])])])

(* Where the transformations of the complementary log-log and the scobit   *)
(* models are too small for the library's arithmetic: 0 ordinary, 1 at the  *)
(* border, 2 beyond it.                                                     *)
Level(C, th, V) ==
    CASE C.M.type = "Cloglog" -> Tab([r \in 1..C.S.n |->
           IF R(-36) \preceq V[r] THEN 0 ELSE IF R(-38) \preceq V[r] THEN 1 ELSE 2])
      [] C.M.type = "Scobit" ->
           LET s == PartShape(C.M, J_(C), th)
           IN  Tab([r \in 1..C.S.n |->
                 LET x == RExp(s[C.S.ai[r]]) \otimes RLn(One \oplus RExp(Neg(V[r])))
                 IN  IF R("1e-15") \preceq x THEN 0
                     ELSE IF R("1e-17") \preceq x THEN 1 ELSE 2])
      [] OTHER -> [r \in 1..C.S.n |-> 0]
Lost == R("1e30")
(* the library's transformations there: as far as its exponentials reach     *)
LevelTrans(C, th, V) ==
    LET h == Trans(C, th, V, SignOf(V))
        lev == Level(C, th, V)
    IN  Tab([r \in 1..C.S.n |-> IF lev[r] = 0 THEN h[r]
                               ELSE IF C.M.type = "Cloglog" THEN R(-700) ELSE R(700)])

Gains(C, th, V) ==
    LET J == J_(C)
        A == AbsIndex(C, th)
        s == PartShape(C.M, J, th)
        nat == Tab([j \in 1..Len(s) |-> RExp(s[j])])
        c == Softmax(Expand(s, J, C.M.sref))
        lam == Lambdas(C, th)
        lev == Level(C, th, V)
    IN  CASE C.M.type = "Cloglog" -> Tab([r \in 1..C.S.n |->
               IF lev[r] = 0 THEN A[r] \otimes (One \oplus RExp(V[r])) ELSE Lost])
          [] C.M.type = "Uneven" -> Tab([r \in 1..C.S.n |->
               A[r] \otimes (One \oplus nat[C.S.ai[r]])])
          [] C.M.type = "Scobit" -> Tab([r \in 1..C.S.n |->
               LET n == nat[C.S.ai[r]]
                   l == RLn(One \oplus RExp(Neg(V[r])))
               IN  IF lev[r] = 0
                   THEN (One \oplus n) \otimes (A[r] \oplus (One \oplus (n \otimes l)))
                   ELSE Lost])
          [] C.M.type = "Asym" -> Tab([r \in 1..C.S.n |->
               LET x == c[C.S.ai[r]]
               IN  (A[r] \otimes ((One \ominus RLn(x)) \ominus RLn((One \ominus x) \oslash R(J))))
                     \oslash (One \ominus x)])
          [] C.M.type = "Nested" -> Tab([r \in 1..C.S.n |-> A[r] \oslash lam[NestOf(C, r)]])
          [] OTHER -> A

(* how flat or steep the objective is for an optimiser: beyond the gains,   *)
(* the regions where the transformations are nearly straight                *)
Slopes(C, th, V) ==
    LET g == Gains(C, th, V)
    IN  CASE C.M.type = "Cloglog" -> Tab([r \in 1..C.S.n |-> g[r] \oplus RExp(Neg(V[r]))])
          [] C.M.type = "Scobit" ->
               LET s == PartShape(C.M, J_(C), th)
               IN  Tab([r \in 1..C.S.n |->
                     LET n == RExp(s[C.S.ai[r]])
                         x == n \otimes RLn(One \oplus RExp(Neg(V[r])))
                         q == RExp(x)
                     IN  g[r] \oplus (((One \oplus n) \otimes (One \oplus x)) \otimes
                                     (q \oslash (q \ominus One)))])
          [] OTHER -> g

(* parameters for which gains and exponents are worth evaluating             *)
Tame(C, th) ==
    /\ \A k \in 1..Len(th) : Abs(th[k]) \preceq R(12)
    /\ LET V == IndexV(C, th) IN \A r \in 1..C.S.n : Abs(V[r]) \preceq R(100)

(* exponents whose exponentials appear in the probabilities *)
Exponents(C, th, V) ==
    CASE C.M.type = "Nested" -> LET lam == Lambdas(C, th)
                                IN  Tab([r \in 1..C.S.n |-> V[r] \oslash lam[NestOf(C, r)]])
      [] C.M.type = "Mixed" -> AbsIndex(C, th)
      [] OTHER -> Trans(C, th, V, SignOf(V))
MaxOf(s) == LET f[k \in 1..Len(s)] == IF k = 1 THEN s[1] ELSE RMax(f[k-1], s[k]) IN f[Len(s)]
Pick(s, q) == [k \in 1..Len(q) |-> s[q[k]]]

UnitErr == R("1e-12")
(* may the probabilities of observation o be compared with the formula?      *)
Comparable(C, g, h, o) ==
    LET q == C.S.rows[o]
        m == MaxOf(Pick(h, q))
    IN  /\ (UnitErr \otimes MaxOf(Pick(g, q))) \preceq R("1e-5")
        /\ m \preceq R(600) /\ R(-600) \preceq m
        /\ C.M.type = "Nested" => \A k \in 1..Len(q) : Abs(h[q[k]]) \preceq R(600)
(* Rows that matter for likelihoods and derivatives: not those of unchosen   *)
(* alternatives with next to no probability.                                 *)
Mattering(C, h) ==
    IF C.M.type \in {"Nested", "Mixed"} THEN 1..C.S.n
    ELSE {r \in 1..C.S.n :
            \/ R(-600) \preceq h[r]
            \/ C.S.cho[C.S.oi[r]] = r
            \/ LET q == C.S.rows[C.S.oi[r]]
               IN  \A k \in 1..Len(q) : h[q[k]] \prec R(-100)}
Among(s, rs) == LET q == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : k \in rs)
                IN  Tab([k \in 1..Len(q) |-> s[q[k]]])
(* and the logarithm of every probability?                                    *)
AllComparable(C, g, h, gmax) ==
    LET big == IF C.M.type = "Mixed"
               THEN RSum(h) ELSE MaxOf([r \in 1..Len(h) |-> Abs(h[r])])
    IN  MaxOf(g) \preceq gmax /\ big \preceq R(300)
=============================================================================
