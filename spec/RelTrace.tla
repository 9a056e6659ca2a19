------------------------------ MODULE RelTrace ------------------------------
(* Weights (P15), extreme utilities (P11), panel prediction (P23) and       *)
(* rearranged data (P28).                                                   *)
EXTENDS Relate, FitTrace

(* two evaluations [ll, grad, hess, info] agree *)
AgreeTol == R("1e-7")
AgreeAbs == R("1e-9")
SameEval(a, b, c, name) ==
    LET near(x, y) == Near(c \otimes R(x), R(y), AgreeTol, AgreeAbs)
        vec(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : near(x[k], y[k])
        real(A) == \A k \in 1..Len(A) : AllReal(A[k])
    IN  IF ~(/\ AllReal(<< a.ll, b.ll >>) /\ AllReal(a.grad) /\ AllReal(b.grad)
             /\ real(a.hess) /\ real(b.hess) /\ real(a.info) /\ real(b.info))
        THEN {name \o "-finite"}
        ELSE Only(near(a.ll, b.ll), name \o "-log-likelihood")
             \cup Only(vec(a.grad, b.grad), name \o "-gradient")
             \cup Only(Len(a.hess) = Len(b.hess) /\ \A k \in 1..Len(a.hess) : vec(a.hess[k], b.hess[k]),
                       name \o "-second-derivatives")
             \cup Only(Len(a.info) = Len(b.info) /\ \A k \in 1..Len(a.info) : vec(a.info[k], b.info[k]),
                       name \o "-information")

Ones(n) == [k \in 1..n |-> One]
WeightFailing(e) ==
    LET C == Prepare(e.tab, e.M)
        CR == Prepare(e.tabR, e.MR)
        th == Nums(e.th)
        w == Nums(e.w)
        rp == IsReplication(e.tab, e.M, e.w, e.tabR, e.from)
              /\ SameDraws(e.tab, e.M, e.tabR, e.MR, e.from)
        o == e.out
    IN  IF ~rp THEN {"scenario-is-not-a-replication"}
        ELSE SameEval(o.weighted, o.replicated, One, "weighted-vs-replicated")
             \cup SameEval(o.unit, o.none, One, "unit-weights")
             \cup SameEval(o.plain, o.scaled, R(e.factor), "scaled-weights")
             \cup (IF ~IsReal(o.weighted.ll) THEN {}
                   ELSE Only(Near(R(o.weighted.ll), LogLik(C, th, w, R(e.ridge)), PTol, R("1e-9")),
                             "weighted-log-likelihood")
                        \cup Only(Near(LogLik(C, th, w, R(e.ridge)),
                                       LogLik(CR, th, Ones(CR.S.n), R(e.ridge)), R("1e-25"), R("1e-25")),
                                  "specification-weights"))
             \* the estimates under weights maximise the replicated data's objective
             \cup (IF o.est = << >> \/ o.success = 0 THEN {}
                   ELSE IF ~AllReal(o.est) THEN {"estimates-finite"}
                   ELSE IF ~Smooth(C, Nums(o.est)) \/ ~Gentle(C, Nums(o.est)) THEN {}
                   ELSE LET g == Gradient(CR, Nums(o.est), Ones(CR.S.n), R(e.ridge))
                        IN  Only(\A k \in 1..Len(g) : k \in Rng(e.cpos) \/ Abs(g[k]) \preceq R("1e-4"),
                                 "weighted-estimates")
                            \cup (IF e.M.type = "MNL" /\ o.estR # << >>
                                  THEN Only(\A k \in 1..Len(g) :
                                         Near(R(o.estR[k]), R(o.est[k]), R("1e-4"), R("1e-4")),
                                         "replicated-estimates") ELSE {}))

(* ---- P11 ---------------------------------------------------------------------- *)
ExtremeFailing(e) ==
    LET S == Structure(e.tab)
        o == e.out
    IN  IF Len(o.probs) # S.n \/ ~AllReal(o.probs) THEN {"probabilities-finite"}
        ELSE LET p == Nums(o.probs)
             IN  Only(\A r \in 1..S.n : Zero \prec p[r], "probabilities-positive")
                 \cup Only(\A r \in 1..S.n : p[r] \preceq R("1.000001"), "probabilities-at-most-one")
                 \cup Only(\A j \in 1..S.nobs : Near(RSum([k \in 1..Len(S.rows[j]) |-> p[S.rows[j][k]]]),
                                                     One, R("1e-6"), Zero), "probabilities-sum")
                 \cup (IF Len(o.chosen) # S.nobs \/ ~AllReal(o.chosen) THEN {"chosen-finite"}
                       ELSE LET c == Nums(o.chosen)
                            IN  Only(\A j \in 1..S.nobs : Zero \prec c[j], "chosen-positive")
                                \cup Only(\A j \in 1..S.nobs : Near(c[j], p[S.cho[j]], R("1e-6"), R("1e-299")),
                                          "chosen-is-the-chosen-row"))
                 \cup Only(IsReal(o.ll), "likelihood-finite")
                 \cup (IF IsReal(o.ll) /\ R(e.ridge) = Zero THEN Only(R(o.ll) \preceq R("1e-6"), "likelihood-sign") ELSE {})
                 \cup (IF IsReal(o.ll) /\ R(e.ridge) = Zero /\ e.M.type # "Mixed"
                          \* (subnormal numbers have few digits)
                          /\ \A j \in 1..S.nobs : R("1e-300") \preceq p[S.cho[j]]
                       THEN Only(Near(R(o.ll), RSum([j \in 1..S.nobs |-> RLn(p[S.cho[j]])]),
                                      R("1e-6"), R("1e-6")), "likelihood-of-choices") ELSE {})
                 \* e.dominant: rows whose utility is driven high, checked here
                 \cup (IF e.dominant = << >> THEN {}
                       ELSE LET C == Prepare(e.tab, e.M)
                                V == IndexV(C, Nums(e.th))
                                dom(r) == /\ R("60") \preceq V[r]
                                          /\ \A q \in Rng(S.rows[S.oi[r]]) \ {r} : Abs(V[q]) \preceq R("3")
                            IN  Only(\A k \in 1..Len(e.dominant) : dom(e.dominant[k]),
                                     "scenario-is-not-dominant")
                                \cup Only(\A k \in 1..Len(e.dominant) :
                                            R("0.999999") \preceq p[e.dominant[k]], "dominant-alternative"))

(* ---- P23 ---------------------------------------------------------------------- *)
PanelFailing(e) ==
    LET p == PanelProbs(e.tab, e.tab2, e.M, Nums(e.th))
        S2 == Structure(e.tab2)
    IN  (IF e.mode = "chosen" THEN {}
         ELSE VecClause(e.out.long, p, R("1e-7"), R("1e-11"), "panel-probabilities"))
        \cup (IF e.mode = "long" THEN {}
              ELSE VecClause(e.out.chosen, Tab([j \in 1..S2.nobs |-> p[S2.cho[j]]]), R("1e-7"), R("1e-11"),
                             "panel-chosen-probabilities"))

(* ---- P28 ---------------------------------------------------------------------- *)
RearrangeFailing(e) ==
    LET o == e.out
        n == Len(e.tab.obs)
    IN  IF ~(IsRearrangement(e.tab, e.tab2, e.from) /\ SameModel(e.tab, e.M, e.tab2, e.M2, e.from))
        THEN {"scenario-is-not-a-rearrangement"}
        ELSE SameEval(o.a, o.b, One, "rearranged")
             \cup (IF ~(Len(o.a.probs) = n /\ Len(o.b.probs) = n /\ AllReal(o.a.probs) /\ AllReal(o.b.probs))
                   THEN {"rearranged-probabilities-finite"}
                   ELSE Only(\A r \in 1..n : Near(R(o.a.probs[e.from[r]]), R(o.b.probs[r]), AgreeTol, R("1e-12")),
                             "rearranged-probabilities"))
             \cup (IF o.a.success = 1 /\ o.b.success = 1
                   THEN Only(Len(o.a.est) = Len(o.b.est) /\ AllReal(o.a.est) /\ AllReal(o.b.est)
                             /\ \A k \in 1..Len(o.a.est) : Near(R(o.a.est[k]), R(o.b.est[k]), R("1e-3"), R("1e-3")),
                             "rearranged-estimates") ELSE {})

RelFailing(e) ==
    IF e.err # "" THEN {"refused-valid-input"}
    ELSE CASE e.kind = "weights"   -> WeightFailing(e)
           [] e.kind = "extreme"   -> ExtremeFailing(e)
           [] e.kind = "panel"     -> PanelFailing(e)
           [] e.kind = "rearrange" -> RearrangeFailing(e)
=============================================================================
