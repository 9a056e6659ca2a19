-------------------------------- MODULE Boot --------------------------------
(* Resampling: bootstrap samples, jackknife samples, and the confidence     *)
(* intervals built from replicates.                                         *)
EXTENDS Calc

(* ---- samples ----------------------------------------------------------------- *)
ObsOf(T) == Rng(T.obs)
ChosenAlt(T, o) == T.alt[CHOOSE r \in 1..Len(T.obs) : T.obs[r] = o /\ T.ch[r] = 1]
Choosers(T, a) == {o \in ObsOf(T) : ChosenAlt(T, o) = a}

(* s: a sequence of observation ids is a sample of T *)
IsSample(T, s) ==
    /\ Len(s) = Cardinality(ObsOf(T))
    /\ Rng(s) \subseteq ObsOf(T)
    /\ LET ca == Tab([o \in ObsOf(T) |-> ChosenAlt(T, o)])
       IN  \A a \in Rng(T.alt) :
             Cardinality({k \in 1..Len(s) : ca[s[k]] = a})
               = Cardinality({o \in ObsOf(T) : ca[o] = a})

RECURSIVE IntSumTo(_, _)
IntSumTo(s, k) == IF k = 0 THEN 0 ELSE IntSumTo(s, k-1) + s[k]
IntSum(s) == IntSumTo(s, Len(s))

RECURSIVE SampleRows(_, _, _)
(* << boot id, row of T >>, draw after draw *)
SampleRows(T, s, k) ==
    IF k = 0 THEN << >>
    ELSE LET q == RowsOf(T.obs, s[k])
         IN  SampleRows(T, s, k-1) \o [j \in 1..Len(q) |-> << k, q[j] >>]
TakeRows(T, q, ids, inds) ==
    [ obs |-> ids, alt |-> [k \in 1..Len(q) |-> T.alt[q[k]]], ind |-> inds,
      ch |-> [k \in 1..Len(q) |-> T.ch[q[k]]],
      x |-> [c \in 1..Len(T.x) |-> [k \in 1..Len(q) |-> T.x[c][q[k]]]] ]
SampleTable(T, s) ==
    LET p == Tab(SampleRows(T, s, Len(s)))
        q == Tab([k \in 1..Len(p) |-> p[k][2]])
        id == Tab([k \in 1..Len(p) |-> p[k][1]])
    IN  TakeRows(T, q, id, id)
SampleWeights(T, s, w) == [k \in 1..Len(SampleRows(T, s, Len(s))) |-> w[SampleRows(T, s, Len(s))[k][2]]]
JackTable(T, o) ==
    LET q == SelectSeq(Upto(Len(T.obs)), LAMBDA r : T.obs[r] # o)
        id == Tab([k \in 1..Len(q) |-> T.obs[q[k]]])
    IN  TakeRows(T, q, id, id)

(* ---- order statistics -------------------------------------------------------- *)
(* v is the k-th smallest number of col *)
IsRank(col, k, v) ==
    /\ Cardinality({j \in 1..Len(col) : col[j] \prec v}) < k
    /\ k <= Cardinality({j \in 1..Len(col) : col[j] \preceq v})
(* the positions (0-based) that percentage p may select among n numbers,    *)
(* rounding down or up; at a whole number (up to rounding) either neighbour *)
Place(p, n) == (p \oslash R(100)) \otimes R(n - 1)
Clip(k, n) == IF k < 0 THEN 0 ELSE IF k > n - 1 THEN n - 1 ELSE k
Tiny == R("1e-8")
Below(p, n) == {Clip(RFloor(Place(p, n) \ominus Tiny), n), Clip(RFloor(Place(p, n) \oplus Tiny), n)}
CeilOf(x) == 0 - RFloor(Neg(x))
Above(p, n) == {Clip(CeilOf(Place(p, n) \ominus Tiny), n), Clip(CeilOf(Place(p, n) \oplus Tiny), n)}
LowerEnd(col, p, v) == \E k \in Below(p, Len(col)) : IsRank(col, k + 1, v)
UpperEnd(col, p, v) == \E k \in Above(p, Len(col)) : IsRank(col, k + 1, v)

Hundred == R(100)
LowTail(level) == (Hundred \ominus level) \oslash Two
HighTail(level) == Hundred \ominus LowTail(level)

(* ---- bias-corrected and accelerated percentages -------------------------------- *)
CountBelow(col, x) == Cardinality({j \in 1..Len(col) : col[j] \prec x})
BcaDefined(col, mle) == LET c == CountBelow(col, mle) IN c > 0 /\ c < Len(col)
BiasZ(col, mle) == RPhiInv(R(CountBelow(col, mle)) \oslash R(Len(col)))
Mean(s) == RSum(s) \oslash R(Len(s))
Cube(x) == RMul(x, Sq(x))
Skew(s) == \* sum of cubes over six times the sum of squares to the 3/2
    LET q == RSum([k \in 1..Len(s) |-> Sq(s[k])])
    IN  IF q = Zero THEN Zero
        ELSE RSum([k \in 1..Len(s) |-> Cube(s[k])]) \oslash (R(6) \otimes (q \otimes RSqrt(q)))
Acceleration(jack) == LET m == Mean(jack) IN Skew(Tab([k \in 1..Len(jack) |-> m \ominus jack[k]]))
BcaDenominator(z0, a, p) == One \ominus (a \otimes (z0 \oplus RPhiInv(p \oslash Hundred)))
BcaPercent(z0, a, p) ==
    LET z == z0 \oplus RPhiInv(p \oslash Hundred)
    IN  Hundred \otimes RPhi(z0 \oplus (z \oslash (One \ominus (a \otimes z))))

(* ---- the estimate as a function of the observations' weights (MNL) ------------- *)
(* Newton's method; the objective is concave *)
Solve2(A, g) ==           \* A d = g for a positive definite A, by elimination
    LET K == Len(g)
        RECURSIVE Elim(_, _, _)
        Elim(B, h, k) ==  \* eliminate column k from the rows below
            IF k = K THEN << B, h >>
            ELSE LET f == Tab([i \in 1..K |-> IF i > k THEN B[i][k] \oslash B[k][k] ELSE Zero])
                 IN  Elim(Tab([i \in 1..K |-> [j \in 1..K |-> B[i][j] \ominus (f[i] \otimes B[k][j])]]),
                          Tab([i \in 1..K |-> h[i] \ominus (f[i] \otimes h[k])]), k + 1)
        e == Elim(A, g, 1)
        B == e[1]
        h == e[2]
        RECURSIVE Back(_, _)
        Back(k, d) ==     \* d: the solution from k+1 on
            IF k = 0 THEN d
            ELSE Back(k - 1, << (h[k] \ominus RSum([j \in 1..Len(d) |-> B[k][k + j] \otimes d[j]]))
                                  \oslash B[k][k] >> \o d)
    IN  Back(K, << >>)
MnlSlope(C, th, w) ==
    LET p == LogitProbs(C, IndexV(C, th))
        K == Len(th)
        n == C.S.n
        g == Tab([k \in 1..K |-> RSum([r \in 1..n |->
                 w[r] \otimes ((R(C.T.ch[r]) \ominus p[r]) \otimes C.X[r][k])])])
        mu == Tab([k \in 1..K |-> [o \in 1..C.S.nobs |->
                 LET q == C.S.rows[o]
                 IN  RSum([j \in 1..Len(q) |-> p[q[j]] \otimes C.X[q[j]][k]])]])
        H == Tab([k \in 1..K |-> [l \in 1..K |-> RSum([r \in 1..n |->
                 (w[r] \otimes p[r]) \otimes (C.X[r][k] \otimes
                    (C.X[r][l] \ominus mu[l][C.S.oi[r]]))])]])
    IN  [ g |-> g, H |-> H ]
RECURSIVE MaxAbs(_, _)
MaxAbs(s, k) == IF k = 0 THEN Zero ELSE RMax(Abs(s[k]), MaxAbs(s, k-1))
RECURSIVE WMle(_, _, _, _)
WMle(C, w, th, left) ==
    LET s == MnlSlope(C, th, w)
        d == Solve2(s.H, s.g)
        big == MaxAbs(d, Len(d))
        f == IF big \preceq One THEN One ELSE One \oslash big     \* steps of at most one
        nx == Tab([k \in 1..Len(th) |-> th[k] \oplus (f \otimes d[k])])
    IN  IF left = 0 \/ big \preceq R("1e-16") THEN nx
        ELSE WMle(C, w, nx, left - 1)

(* ---- Efron's approximate bootstrap confidence limits --------------------------- *)
(* v: row weights given by the user; mle: the estimate at equal weights     *)
Abc(C, v, eps, mle, level) ==
    LET n == C.S.nobs
        N == R(n)
        K == Len(mle)
        eq == One \oslash N
        \* estimate at observation weights P
        At(P) == WMle(C, Tab([r \in 1..C.S.n |-> P[C.S.oi[r]] \otimes v[r]]), mle, 30)
        plus == Tab([i \in 1..n |-> At([j \in 1..n |->
                   ((One \ominus eps) \otimes eq) \oplus (IF i = j THEN eps ELSE Zero)])])
        minus == Tab([i \in 1..n |-> At([j \in 1..n |->
                   ((One \oplus eps) \otimes eq) \ominus (IF i = j THEN eps ELSE Zero)])])
        inf == Tab([k \in 1..K |-> [i \in 1..n |->
                   (plus[i][k] \ominus minus[i][k]) \oslash (Two \otimes eps)]])
        sec == Tab([k \in 1..K |-> [i \in 1..n |->
                   ((plus[i][k] \ominus (Two \otimes mle[k])) \oplus minus[i][k]) \oslash Sq(eps)]])
        One_(k) ==
          LET sd == RSqrt(RSum([i \in 1..n |-> Sq(inf[k][i])])) \oslash N
              a == Skew(inf[k])
              bias == RSum(sec[k]) \oslash (Two \otimes Sq(N))
              dir == Tab([i \in 1..n |-> inf[k][i] \oslash (Sq(N) \otimes sd)])
              Along(x) == At([j \in 1..n |-> eq \oplus (x \otimes dir[j])])[k]
              cq == ((Along(eps) \ominus (Two \otimes mle[k])) \oplus Along(Neg(eps)))
                      \oslash ((Two \otimes sd) \otimes Sq(eps))
              curv == (bias \oslash sd) \ominus cq
              inner == (Two \otimes RPhi(a)) \otimes RPhi(Neg(curv))
              z0 == RPhiInv(inner)
              lam(p) == LET z == z0 \oplus RPhiInv(p \oslash Hundred)
                        IN  z \oslash Sq(One \ominus (a \otimes z))
              ok(l) == \A j \in 1..n : R("0.0005") \preceq (eq \oplus (l \otimes dir[j]))
              lo == lam(LowTail(level))
              hi == lam(HighTail(level))
              \* a well-conditioned problem with a defined bias correction
              sane == /\ R("0.01") \preceq sd /\ Abs(bias) \preceq (R(3) \otimes sd)
                      /\ Abs(cq) \preceq R(3)
                      /\ R("0.001") \preceq inner /\ inner \preceq R("0.999")
          IN  IF sane /\ ok(lo) /\ ok(hi)
              THEN LET x == Along(lo)
                       y == Along(hi)
                   IN  << IF RMax(Abs(x), Abs(y)) \preceq R(8) THEN "ok" ELSE "outside", x, y >>
              ELSE << "outside", Zero, Zero >>
    IN  Tab([k \in 1..K |-> One_(k)])
=============================================================================
