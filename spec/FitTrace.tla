------------------------------ MODULE FitTrace ------------------------------
(* Executions that fit models: labels (P16), inference (P17), constraints   *)
(* (P18), estimation (P19), prediction (P20).                               *)
EXTENDS Infer, ModelTrace

NearR(x, y) == Near(x, y, R("1e-8"), R("1e-9"))
(* an observed numeral equals the expected number *)
Is(s, x)  == IsReal(s) /\ NearR(R(s), x)
IsL(s, x) == IsReal(s) /\ Near(R(s), x, R("1e-6"), R("1e-8"))

(* ---- P16 -------------------------------------------------------------------- *)
LabelFailing(e) ==
    LET g == Groups(e.tab, e.M, e.L, e.th)
        labels == [k \in 1..Len(g.params) |-> g.params[k][1]]
    IN  Only(e.out.params = g.params, "parameter-labels-and-values")
        \cup Only(e.out.coefs = g.coefs, "coefficients")
        \cup Only(e.out.intercepts = g.intercepts, "intercepts")
        \cup Only(e.out.shapes = g.shapes, "shapes")
        \cup Only(e.out.nests = g.nests, "nests")
        \cup Only(\A k \in 1..Len(e.out.index) : e.out.index[k] = labels, "result-labels")

(* ---- P17 -------------------------------------------------------------------- *)
(* se[i] is the root of the variance, undefined if constrained or negative  *)
RootOf(se, var, fixed) ==
    IF fixed THEN se = "nan"
    ELSE IF Zero \prec var THEN IsReal(se) /\ Near(Sq(R(se)), var, R("1e-8"), R("1e-14"))
    ELSE se \in {"nan", "0", "-0"} \/ (IsReal(se) /\ Near(R(se), Zero, Zero, R("1e-7")))
TOf(t, p, se) == IF ~IsReal(se) THEN t = "nan"
                 ELSE IF R(se) = Zero THEN TRUE
                 ELSE IsReal(t) /\ Near(R(t) \otimes R(se), R(p), R("1e-8"), R("1e-10"))
POf(pv, t) == IF ~IsReal(t) THEN (t = "nan" => pv = "nan")
              ELSE IsReal(pv) /\ Near(R(pv), TwoSided(R(t)), R("1e-6"), R("1e-10"))
(* a printed cell has three or four decimals, or significant digits         *)
Printed(c, s) == IF IsReal(s) THEN IsReal(c) /\ Near(R(c), R(s), R("0.006"), R("0.00051"))
                 ELSE c = s
PrintedSeq(c, s) == Len(c) = Len(s) /\ \A k \in 1..Len(s) : Printed(c[k], s[k])
SummaryFailing(o) ==
    IF o.sm = << >> THEN {}
    ELSE Only(Len(o.sm) = Len(o.params) /\ \A i \in 1..Len(o.sm) :
                PrintedSeq(o.sm[i], << o.params[i], o.se[i], o.t[i], o.p[i], o.small[i][1],
                                       o.small[i][2] >>), "statsmodels-parameters")
         \cup Only(o.smlabels = o.labels, "statsmodels-labels")
         \cup Only(PrintedSeq(o.smtop, << ToString(o.nobs), ToString(o.dfr), ToString(o.dfm), o.rho,
                                          o.rhobar, o.ll, o.null, o.aic, o.bic >>),
                   "statsmodels-statistics")
InferFailing(e) ==
    LET o == e.out
        k == Len(o.params)
        fixed(i) == i \in Rng(e.cpos)
        real == /\ \A i \in 1..k : AllReal(o.hess[i]) /\ AllReal(o.cov[i])
                                   /\ AllReal(o.info[i]) /\ AllReal(o.rcov[i])
                /\ AllReal(o.params) /\ AllReal(<< o.ll, o.null, o.aic, o.bic, o.rho, o.rhobar >>)
    IN  IF ~real THEN {"inference-finite"}
        ELSE
        LET H == Tab([i \in 1..k |-> Nums(o.hess[i])])
            V == Tab([i \in 1..k |-> Nums(o.cov[i])])
            I == Tab([i \in 1..k |-> Nums(o.info[i])])
            W == Tab([i \in 1..k |-> Nums(o.rcov[i])])
            ll == R(o.ll)
            null == R(o.null)
            nobs == Cardinality(Rng(e.tab.obs))
        IN  SummaryFailing(o) \cup Only(IsNegInverse(V, H), "covariance")
            \cup Only(\A i, j \in 1..k : Near(H[i][j], H[j][i], R("1e-8"), R("1e-9")),
                     "second-derivatives-symmetric")
            \cup Only(IsSandwich(W, V, I), "robust-covariance")
            \cup Only(\A i \in 1..k : RootOf(o.se[i], V[i][i], fixed(i)), "standard-errors")
            \cup Only(\A i \in 1..k : RootOf(o.rse[i], W[i][i], fixed(i)), "robust-standard-errors")
            \cup Only(\A i \in 1..k : TOf(o.t[i], o.params[i], o.se[i]), "t-statistics")
            \cup Only(\A i \in 1..k : TOf(o.rt[i], o.params[i], o.rse[i]), "robust-t-statistics")
            \cup Only(\A i \in 1..k : POf(o.p[i], o.t[i]), "p-values")
            \cup Only(\A i \in 1..k : POf(o.rp[i], o.rt[i]), "robust-p-values")
            \cup Only(\A j \in 1..Len(o.ci) :
                   LET i == o.cipos[j]
                       lo == o.ci[j][1]
                       hi == o.ci[j][2]
                   IN  IF ~IsReal(o.se[i]) THEN lo = "nan" /\ hi = "nan"
                       ELSE IF R(o.se[i]) = Zero THEN TRUE
                       ELSE /\ IsReal(lo) /\ IsReal(hi)
                            /\ Near(R(o.params[i]), (R(lo) \oplus R(hi)) \oslash Two, R("1e-6"),
                                    R("1e-8") \oplus (R("1e-13") \otimes R(o.se[i])))
                            /\ Near(RPhi((R(hi) \ominus R(o.params[i])) \oslash R(o.se[i])),
                                    One \ominus (R(e.alpha) \oslash Two), Zero, R("1e-7")),
                 "confidence-interval")
            \cup Only(Len(o.ci) = Len(o.cipos) /\ Len(o.cipos) = e.nci, "confidence-interval-rows")
            \cup Only(Is(o.aic, Aic(ll, k)), "aic")
            \cup Only(Is(o.bic, Bic(ll, k, nobs)), "bic")
            \cup Only(Is(o.rho, Rho(ll, null)) /\ Is(o.rhobar, RhoBar(ll, null, k)), "rho-squared")
            \cup Only(o.nobs = nobs /\ o.dfm = k /\ o.dfr = nobs - k, "degrees-of-freedom")
            \cup Only(o.summary = [i \in 1..k |-> << o.params[i], o.se[i], o.t[i], o.p[i],
                                                     o.rse[i], o.rt[i], o.rp[i] >>], "summary-table")
            \cup Only(o.fitsum = << ToString(k), ToString(nobs), o.null, o.ll, o.rho, o.rhobar,
                                    o.msg >>, "fit-summary")
            \cup Only(o.llf = o.ll /\ o.bse = o.se, "statsmodels-attributes")
            \* residuals and chi-squares, per draw for mixed logit
            \cup (LET n == Len(e.tab.obs)
                      oq == FirstSeen(e.tab.obs)
                      D == Len(o.probs)
                  IN  IF \E d \in 1..D : ~(AllReal(o.probs[d]) /\ AllReal(o.resid[d]) /\ AllReal(o.chi[d]))
                      THEN {"residuals-finite"}
                      ELSE LET p == Tab([d \in 1..D |-> Nums(o.probs[d])])
                               q == Tab([d \in 1..D |-> Nums(o.resid[d])])
                               c == Tab([d \in 1..D |-> Nums(o.chi[d])])
                           IN  Only(\A d \in 1..D : \A r \in 1..n :
                                      NearR(q[d][r], R(e.tab.ch[r]) \ominus p[d][r]), "residuals")
                               \cup Only(\A d \in 1..D : Len(c[d]) = Len(oq) /\ \A j \in 1..Len(oq) :
                                      LET rs == RowsOf(e.tab.obs, oq[j])
                                      IN  Near(c[d][j], RSum([m \in 1..Len(rs) |->
                                             Sq(q[d][rs[m]]) \oslash p[d][rs[m]]]), R("1e-8"), R("1e-9")),
                                    "chi-squares")
                               \cup Only(IsL(o.chisq, RSum([d \in 1..D |-> RSum(c[d])])), "total-chi-square"))

(* beyond this size 53-bit results lose the digits the clauses compare      *)
Moderate(C, th) ==
    /\ \A k \in 1..Len(th) : Abs(th[k]) \preceq R(10)
    /\ LET V == IndexV(C, th) IN \A r \in 1..C.S.n : Abs(V[r]) \preceq R(6)
(* an optimiser can follow the objective: no steep ridges                    *)
Gentle(C, th) ==
    Moderate(C, th) /\ LET V == IndexV(C, th)
                       IN  AllComparable(C, Slopes(C, th, V), Exponents(C, th, V), R(500))
(* the asymmetric logit's objective has a kink where an index is zero: an   *)
(* optimiser can end there without a vanishing gradient                     *)
Smooth(C, th) ==
    \/ C.M.type # "Asym"
    \/ LET V == IndexV(C, th) IN \A r \in 1..C.S.n : R("1e-5") \prec Abs(V[r])

(* ---- P18 -------------------------------------------------------------------- *)
(* gradient over the free parameters is negligible relative to the          *)
(* curvature: a Newton step would hardly move, or the value is small        *)
FreeStationary(C, th, w, ridge, cpos, tol) ==
    LET g == Gradient(C, th, w, ridge)
    IN  \A k \in 1..Len(th) : k \in cpos \/ Abs(g[k]) \preceq tol

ConstrainedFailing(e) ==
    LET o == e.out
        k == Len(o.params)
        fx == Rng(e.cpos)
    IN  Only(\A i \in fx : o.params[i] = e.th[i], "constrained-parameter-moved")
        \cup Only(\A i \in fx : o.se[i] = "nan" /\ o.t[i] = "nan" /\ o.p[i] = "nan",
                  "constrained-parameter-has-inference")
        \cup Only(\A i \in fx : o.rse[i] = "nan" /\ o.rt[i] = "nan" /\ o.rp[i] = "nan",
                  "constrained-parameter-has-robust-inference")
        \cup (IF ~(AllReal(o.var) /\ AllReal(o.rvar) /\ AllReal(o.params)) THEN {}
              ELSE Only(\A i \in 1..k : i \in fx \/
                          (/\ RootOf(o.se[i], R(o.var[i]), FALSE)
                           /\ TOf(o.t[i], o.params[i], o.se[i]) /\ POf(o.p[i], o.t[i])),
                        "free-parameter-inference")
                   \cup Only(\A i \in 1..k : i \in fx \/
                          (/\ RootOf(o.rse[i], R(o.rvar[i]), FALSE)
                           /\ TOf(o.rt[i], o.params[i], o.rse[i]) /\ POf(o.rp[i], o.rt[i])),
                        "free-parameter-robust-inference"))
        \cup (IF ~AllReal(o.params) THEN {"parameters-finite"}
              ELSE IF o.success = 1
              THEN LET C == Prepare(e.tab, e.M)
                       th == Nums(o.params)
                   IN  IF ~(Gentle(C, th) /\ Smooth(C, th)) THEN {"~optimum-out-of-range"}
                       ELSE Only(FreeStationary(C, th, Nums(e.w), R(e.ridge), fx, R(e.tol)),
                                 "free-parameters-not-at-optimum")
              ELSE {})

(* ---- P19 -------------------------------------------------------------------- *)
EstimationFailing(e) ==
    LET o == e.out
        C == Prepare(e.tab, e.M)
        w == Nums(e.w)
        ridge == R(e.ridge)
        fx == Rng(e.cpos)
    IN  IF ~AllReal(o.params) THEN {"parameters-finite"}
        ELSE IF ~IsReal(o.ll) \/ ~IsReal(o.null) THEN {"likelihood-finite"}
        ELSE
        LET th  == Nums(o.params)
            ll0 == LogLik(C, Nums(e.th), w, ridge)
            lln == LogLik(C, Tab([k \in 1..Len(th) |-> Zero]), w, ridge)
        IN  Only(Is(o.null, lln), "null-likelihood")
            \* (an optimiser that admits failure may have run into overflow)
            \cup (IF o.success = 1 \/ Tame(C, th)
                  THEN Only((ll0 \ominus R("1e-9")) \preceq R(o.ll), "objective-decreased") ELSE {})
            \cup (IF ~Tame(C, th) THEN {"~parameters-out-of-range"} ELSE
        LET V   == IndexV(C, th)
            gn  == Gains(C, th, V)
            h   == Exponents(C, th, V)
            gm  == MaxOf(gn)
            inLL == AllComparable(C, gn, h, R("1e7"))
            inD == AllComparable(C, gn, h, R("3e4"))
            pr  == Probs(C, th)
            gr  == Gradient(C, th, w, ridge)
            la  == R("1e-9") \oplus ((UnitErr \otimes gm) \otimes R(C.S.n))
            ga  == R("1e-7") \oplus ((R("1e-13") \otimes Sq(gm)) \otimes R(C.S.n))
            pt  == PTol \oplus (UnitErr \otimes gm)
        IN  (IF ~inLL THEN {"~likelihood-out-of-range"}
             ELSE ScalarClause(o.ll, LogLik(C, th, w, ridge), PTol, la, "reported-likelihood")
                  \cup VecClause(o.probs, pr, pt, R("1e-10"), "reported-probabilities")
                  \cup VecClause(o.chosen, Tab([j \in 1..C.S.nobs |-> pr[C.S.cho[j]]]), pt, R("1e-10"),
                                 "reported-chosen-probabilities"))
            \cup (IF C.M.type = "Nested" /\ Zero \prec ridge THEN {}   \* known finding of P13
                  ELSE IF ~Smooth(C, th) THEN {}
                  ELSE (IF ~inD THEN {"~derivatives-out-of-range"}
                        ELSE VecClause(o.grad, gr, GTol, ga, "reported-gradient"))
                       \cup (IF o.success = 1 /\ Gentle(C, th)
                             THEN Only(\A k \in 1..Len(th) : k \in fx \/ Abs(gr[k]) \preceq R(e.tol),
                                       "not-stationary") ELSE {}))
            \* the unique maximum of conditional logit
            \cup (IF e.same = << >> THEN {}
                  ELSE Only(\A j \in 1..Len(e.same) : AllReal(e.same[j].params)
                               /\ (Moderate(C, th) /\ e.same[j].success = 1 /\ o.success = 1 =>
                                   \A k \in 1..Len(th) :
                                     Near(R(e.same[j].params[k]), th[k], R("1e-3"), R("1e-3"))),
                            "different-maximum")))

(* ---- P20 -------------------------------------------------------------------- *)
(* e.calls: predictions of one fitted model; each has its table (tab),      *)
(* parameters (th), draws if mixed, mode "long" / "chosen" / "both", and    *)
(* the result: sequences of columns long, chosen.                           *)
OnePrediction(M, c) ==
    LET K == Len(c.th)                              \* parameter columns
        exp == Tab([k \in 1..K |->
                 Probs(Prepare(c.tab, [M EXCEPT !.draws = c.draws]), Nums(c.th[k]))])
        cho == Structure(c.tab).cho
        okLong == /\ Len(c.long) = K
                  /\ \A k \in 1..K : /\ Len(c.long[k]) = Len(exp[k])
                                     /\ AllReal(c.long[k])
                                     /\ NearSeq(Nums(c.long[k]), exp[k], PTol, PAbs)
        okChosen == /\ Len(c.chosen) = K
                    /\ \A k \in 1..K : /\ Len(c.chosen[k]) = Len(cho)
                                       /\ AllReal(c.chosen[k])
                                       /\ \A j \in 1..Len(cho) :
                                            Near(R(c.chosen[k][j]), exp[k][cho[j]], PTol, PAbs)
    IN  IF c.err # "" THEN {"prediction-refused-" \o c.mode}
        ELSE (IF c.mode \in {"long", "both"} THEN Only(okLong, "long-probabilities-" \o c.mode) ELSE {})
             \cup (IF c.mode \in {"chosen", "both"} THEN Only(okChosen, "chosen-probabilities-" \o c.mode) ELSE {})
PredictFailing(e) == UNION {OnePrediction(e.M, e.calls[k]) : k \in 1..Len(e.calls)}

FitFailing(e) ==
    IF e.err # "" THEN {"refused-valid-input"}
    ELSE CASE e.kind = "labels"      -> LabelFailing(e)
           [] e.kind = "inference"   -> InferFailing(e)
           [] e.kind = "constrained" -> ConstrainedFailing(e)
           [] e.kind = "estimation"  -> EstimationFailing(e)
           [] e.kind = "predict"     -> PredictFailing(e)
=============================================================================
