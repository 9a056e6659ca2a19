----------------------------- MODULE ModelTrace -----------------------------
(* Executions that evaluate a model at a parameter vector.  An event has    *)
(* tab, M, th, w (row weights), ridge, want (clauses to judge), out.        *)
EXTENDS Calc, Replay

Only(b, name) == IF b THEN {} ELSE {name}

(* results are compared after 53-bit arithmetic of moderate conditioning *)
PTol == R("1e-8")
PAbs == R("1e-13")
GTol == R("1e-6")
GAbs == R("1e-8")

ProbClauses(C, th, p) ==
    IF Len(p) # C.S.n THEN {"probs-one-per-row"}
    ELSE IF ~AllReal(p) THEN {"probs-finite"}
    ELSE LET q == Nums(p)
             m == Probs(C, th)
             V == IndexV(C, th)
             g == Gains(C, th, V)
             h == Exponents(C, th, V)
             cmp == {o \in 1..C.S.nobs : Comparable(C, g, h, o)}
             tol(o) == PTol \oplus (UnitErr \otimes MaxOf(Pick(g, C.S.rows[o])))
             \* beyond the border of the library's arithmetic (a known finding)
             lev == Level(C, th, V)
             far == {o \in 1..C.S.nobs :
                       LET rs == C.S.rows[o]
                       IN  /\ \E k \in 1..Len(rs) : lev[rs[k]] = 2
                           /\ \A k \in 1..Len(rs) :
                                /\ lev[rs[k]] # 1
                                /\ lev[rs[k]] = 0 => g[rs[k]] \preceq R("1e6")
                                /\ Abs(h[rs[k]]) \preceq R(300)}
             like(o, f) == \A k \in 1..Len(C.S.rows[o]) :
                             LET r == C.S.rows[o][k] IN Near(q[r], f[r], R("1e-6"), R("1e-300"))
             flat == LogitProbs(C, LevelTrans(C, th, V))
             off == {o \in far : ~like(o, m)}
         IN  Only(\A o \in off : ~like(o, flat), "KF-transformation-levels-off")
             \cup Only(\A o \in off : like(o, flat), "probs-formula-far")
             \cup Only(\A o \in cmp : \A k \in 1..Len(C.S.rows[o]) :
                    LET r == C.S.rows[o][k] IN Near(q[r], m[r], tol(o), PAbs),
                  "probs-formula")
             \cup Only(cmp # {}, "~probabilities-out-of-range")
             \cup Only(\A o \in cmp :
                         LET rs == C.S.rows[o]
                         IN  Near(RSum([k \in 1..Len(rs) |-> q[rs[k]]]), One, PTol, PAbs),
                       "probs-sum-to-one")

ScalarClause(x, m, rt, at, name) ==
    IF ~IsReal(x) THEN {name \o "-finite"} ELSE Only(Near(R(x), m, rt, at), name)

VecClause(v, m, rt, at, name) ==
    IF Len(v) # Len(m) THEN {name \o "-length"}
    ELSE IF ~AllReal(v) THEN {name \o "-finite"}
    ELSE Only(NearSeq(Nums(v), m, rt, at), name)

MatClause(A, m, rt, at, name) ==
    IF Len(A) # Len(m) \/ \E k \in 1..Len(A) : Len(A[k]) # Len(m) THEN {name \o "-shape"}
    ELSE IF \E k \in 1..Len(A) : ~AllReal(A[k]) THEN {name \o "-finite"}
    ELSE LET B == Tab([k \in 1..Len(A) |-> Nums(A[k])])
         IN  Only(\A k \in 1..Len(A) : NearSeq(B[k], m[k], rt, at), name)
             \cup Only(\A k, l \in 1..Len(A) : Near(B[k][l], B[l][k], R("1e-9"), R("1e-11")),
                       name \o "-symmetric")

(* Known deviations pinned by the repository's own tests (known findings):  *)
(* the nested ridge gradient penalises the distance of the nest parameters  *)
(* to 20; the mixed second-derivative matrix has the ridge with wrong sign. *)
DevGradient(C, th, w, ridge, sc) ==
    LET g == GradientFrom(C, th, w, Zero, sc)
    IN  Tab([k \in 1..Len(th) |->
          g[k] \ominus ((Two \otimes ridge) \otimes
             (IF k <= NNest(C.M, J_(C)) THEN R(20) \ominus th[k] ELSE th[k]))])

GradClauses(C, th, w, ridge, g, ga) ==
    LET sc == Scores(C, th)
        bad == VecClause(g, GradientFrom(C, th, w, ridge, sc), GTol, ga, "gradient")
    IN  IF bad = {} THEN {}
        ELSE IF C.M.type = "Nested" /\ Zero \prec ridge
                /\ VecClause(g, DevGradient(C, th, w, ridge, sc), GTol, ga, "d") = {}
             THEN {"KF-nested-ridge-gradient"} ELSE bad

Expected2(C, th, w, ridge, cpos) ==
    IF C.M.type \in {"Nested", "Mixed"} THEN Masked(Hessian(C, th, w, ridge), cpos)
    ELSE Hessian(C, th, w, ridge)
HessClauses(C, th, w, ridge, A, cpos, ga) ==
    LET bad == MatClause(A, Expected2(C, th, w, ridge, cpos), GTol, ga, "hessian")
    IN  IF bad = {} THEN {}
        ELSE IF C.M.type = "Mixed" /\ Zero \prec ridge
                /\ MatClause(A, Expected2(C, th, w, Neg(ridge), cpos), GTol, ga, "d") = {}
             THEN {"KF-mixed-ridge-hessian"} ELSE bad

(* ---- the draws of mixed logit --------------------------------------------------- *)
(* out.draws[m][i]: the draws of individual i for random coefficient m.  They *)
(* are separate standard normal draws: no two alike, reproduced by the same   *)
(* seed, not by another; large sets have the moments of independent ones up   *)
(* to six standard deviations.                                                *)
DrawsFailing(e) ==
    LET d == e.out.draws
        V == 1..e.nvar
        I == 1..e.nind
        D == 1..e.ndraw
        n == e.nind * e.ndraw
        N == R(n)
        x == Tab([m \in V |-> [i \in I |-> Nums(d[m][i])]])
        \* average over individuals and draws
        Mean(F(_, _)) == RSum([i \in I |-> RSum([k \in D |-> F(i, k)])]) \oslash N
        Within(v, c, var) == Sq(v \ominus c) \preceq ((R(36) \otimes var) \oslash N)
    IN  IF ~(Len(d) = e.nvar /\ \A m \in V : Len(d[m]) = e.nind /\ \A i \in I : Len(d[m][i]) = e.ndraw)
        THEN {"draws-shape"}
        ELSE IF \E m \in V : \E i \in I : ~AllReal(d[m][i]) THEN {"draws-finite"}
        ELSE Only(Cardinality(UNION {Rng(d[m][i]) : m \in V, i \in I}) = e.nvar * n,
                  "draws-are-separate")
             \cup Only(e.out.again = d, "same-seed-same-draws")
             \cup Only(e.out.other # d, "other-seed-other-draws")
             \cup (IF n < 100 THEN {} ELSE
                  Only(\A m \in V : Within(Mean(LAMBDA i, k : x[m][i][k]), Zero, One), "draws-mean")
                  \cup Only(\A m \in V : Within(Mean(LAMBDA i, k : Sq(x[m][i][k])), One, Two),
                            "draws-variance")
                  \cup Only(\A m \in V : Within(Mean(LAMBDA i, k :
                              IF Abs(x[m][i][k]) \preceq R("0.674489750196") THEN One ELSE Zero),
                              R("0.5"), R("0.25")), "draws-quartiles")
                  \cup Only(\A m, l \in V : m = l \/
                              Within(Mean(LAMBDA i, k : x[m][i][k] \otimes x[l][i][k]), Zero, One),
                            "draws-independent-coefficients")
                  \cup Only(\A m \in V : e.nind = 1 \/
                              Within(Mean(LAMBDA i, k : x[m][i][k] \otimes
                                       x[m][IF i = 1 THEN e.nind ELSE i - 1][k]), Zero, R("2")),
                            "draws-independent-individuals"))

ModelFailing(e) ==
    IF e.err # "" THEN {"refused-valid-input"}
    ELSE IF "nvar" \in DOMAIN e THEN DrawsFailing(e)
    ELSE
    LET C     == Prepare(e.tab, e.M)
        th    == Nums(e.th)
        w     == Nums(e.w)
        ridge == R(e.ridge)
        want  == Rng(e.want)
        V     == IndexV(C, th)
        h0    == Exponents(C, th, V)
        rows  == Mattering(C, h0)
        h     == Among(h0, rows)
        g     == Among(Gains(C, th, V), rows)
        gm    == MaxOf(g)
        inLL  == AllComparable(C, g, h, R("1e7"))
        inD   == AllComparable(C, g, h, R("3e4"))
        la    == R("1e-9") \oplus ((UnitErr \otimes gm) \otimes R(C.S.n))
        ga    == GAbs \oplus ((R("1e-13") \otimes Sq(gm)) \otimes R(C.S.n))
    IN  (IF "probs" \in want THEN ProbClauses(C, th, e.out.probs) ELSE {})
        \cup (IF "ll" \notin want THEN {} ELSE IF ~inLL THEN {"~likelihood-out-of-range"}
              ELSE ScalarClause(e.out.ll, LogLik(C, th, w, ridge), PTol, la, "log-likelihood"))
        \cup (IF want \cap {"grad", "hess", "info"} # {} /\ ~inD
              THEN {"~derivatives-out-of-range"} ELSE {})
        \cup (IF "grad" \in want /\ inD THEN GradClauses(C, th, w, ridge, e.out.grad, ga) ELSE {})
        \cup (IF "hess" \in want /\ inD
              THEN HessClauses(C, th, w, ridge, e.out.hess, Rng(e.cpos), ga) ELSE {})
        \cup (IF "info" \in want /\ inD
              THEN MatClause(e.out.info, Information(C, th, w, ridge), GTol, ga, "information")
              ELSE {})
=============================================================================
