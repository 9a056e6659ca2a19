------------------------------ MODULE BootTrace ------------------------------
(* Executions of the bootstrap: samples (P24), replicates (P25), percentile *)
(* and BCa intervals (P26), ABC intervals (P27).                            *)
EXTENDS Boot, FitTrace

(* ---- P24 ---------------------------------------------------------------------- *)
(* the number of successes among n trials of probability 1/m, within six    *)
(* standard deviations                                                      *)
Plausible(hits, n, m) ==
    LET d == hits * m - n
    IN  d * d <= 36 * n * (m - 1) + 36 * m * m
SampleFailing(e) ==
    LET T == e.tab
        o == e.out
        n == Cardinality(ObsOf(T))
        B == Len(o.ids)
        ca == Tab([x \in ObsOf(T) |-> ChosenAlt(T, x)])
        grp == Tab([a \in Rng(T.alt) |-> {x \in ObsOf(T) : ca[x] = a}])
        \* draws of sample b that belong to alternative a
        idx(b, a) == SelectSeq(Upto(n), LAMBDA k : ca[o.ids[b][k]] = a)
    IN  IF ~(B = e.nsamp /\ \A b \in 1..B : Len(o.ids[b]) = n) THEN {"sample-size"}
        ELSE IF ~(\A b \in 1..B : Rng(o.ids[b]) \subseteq ObsOf(T)) THEN {"unknown-observation"}
        ELSE Only(\A b \in 1..B : IsSample(T, o.ids[b]), "choice-shares")
             \cup Only(o.again = o.ids, "same-seed-other-samples")
             \cup (IF B < 100 \/ \E b \in 1..B : ~IsSample(T, o.ids[b]) THEN {}
                   ELSE UNION {
                     LET m == Cardinality(grp[a])
                         d == Tab([b \in 1..B |-> LET q == idx(b, a) IN [j \in 1..m |-> o.ids[b][q[j]]]])
                         hit(x) == Cardinality({c \in (1..B) \X (1..m) : d[c[1]][c[2]] = x})
                         rep == Cardinality({b \in 1..B : d[b][1] = d[b][2]})
                         next == Cardinality({b \in 1..(B-1) : d[b][1] = d[b+1][1]})
                     IN  IF m < 2 THEN {}
                         ELSE Only(\A x \in grp[a] : Plausible(hit(x), B * m, m), "uneven-draws")
                              \cup Only(Plausible(rep, B, m), "draws-without-replacement")
                              \cup Only(Plausible(next, B - 1, m), "samples-not-independent")
                     : a \in Rng(T.alt)})

(* a sample's table: o.cols column names, o.rows the rows' numerals;        *)
(* e.cols and e.rows those of the original                                  *)
FrameFailing(e) ==
    LET o == e.out
        s == e.ids
        obsc == Index(e.cols, e.obscol)
        want == {e.cols[k] : k \in 1..Len(e.cols)} \cup {e.bootcol}
    IN  IF Rng(o.cols) # want \/ Len(o.cols) # Cardinality(want) THEN {"sample-table-columns"}
        ELSE
        LET pos == Tab([k \in 1..Len(e.cols) |-> Index(o.cols, e.cols[k])])
            bc == Index(o.cols, e.bootcol)
            \* the rows of boot id k, in the original order of columns
            got(k) == LET q == SelectSeq(o.rows, LAMBDA r : r[bc] = ToString(k))
                      IN  [j \in 1..Len(q) |-> [c \in 1..Len(pos) |-> q[j][pos[c]]]]
            org(k) == SelectSeq(e.rows, LAMBDA r : r[obsc] = ToString(s[k]))
            count(q, x) == Cardinality({j \in 1..Len(q) : q[j] = x})
        IN  Only(Len(o.rows) = IntSum([k \in 1..Len(s) |-> Len(org(k))]), "sample-table-rows")
            \cup Only(\A k \in 1..Len(s) :
                   LET g == got(k)
                       h == org(k)
                   IN  Len(g) = Len(h) /\ \A x \in Rng(h) : count(g, x) = count(h, x),
                 "choice-situations")

(* ---- P25 ---------------------------------------------------------------------- *)
(* e.route "boot": out.ids the samples, "jack", or "given" (replicates      *)
(* chosen by the caller); out.reps the replicates, out.refit what a direct  *)
(* fit on the same sample gives (<< >>: not made)                           *)
ReplicateFailing(e) ==
    LET o == e.out
        T == e.tab
        fx == Rng(e.cpos)
        n == IF e.route = "jack" THEN Cardinality(ObsOf(T)) ELSE e.nsamp
        order == Sorted(ObsOf(T))
        tab(k) == IF e.route = "jack" THEN JackTable(T, order[k]) ELSE SampleTable(T, e.ids[k])
        \* a drawn row keeps the weight of the row it copies
        wt(k, m) == IF e.route = "boot" THEN SampleWeights(T, e.ids[k], Nums(e.w))
                    ELSE [r \in 1..m |-> One]
        C0 == Prepare(T, e.M)
        ones == [r \in 1..C0.S.n |-> One]
    IN  IF ~(Len(o.reps) = n /\ \A k \in 1..n : Len(o.reps[k]) = Len(e.labels) /\ AllReal(o.reps[k]))
        THEN {"replicates-shape"}
        ELSE
        LET th == Tab([k \in 1..n |-> Nums(o.reps[k])])
        IN  Only(o.cols = e.labels, "replicate-labels")
            \cup (IF e.route = "given" THEN {}
                  ELSE Only(\A k \in 1..n : \A i \in fx : NearR(th[k][i], R(e.th[i])), "replicate-constraints")
                       \cup Only(\A k \in 1..Len(e.refit) :
                         e.refit[k].ok = 0 \/
                           (AllReal(e.refit[k].x) /\
                            NearSeq(Nums(e.refit[k].x), th[k], R(e.rtol), R(e.rtol))),
                         "replicate-is-not-the-sample-estimate")
                       \cup (IF e.station = 0 THEN {}
                             ELSE Only(\A k \in 1..n :
                               LET C == Prepare(tab(k), e.M)
                               IN  \/ e.refit[k].ok = 0
                                   \/ ~(Moderate(C, th[k]) /\ Smooth(C, th[k]))
                                   \/ FreeStationary(C, th[k], Tab(wt(k, C.S.n)), R(e.ridge),
                                                     fx, R("0.001")),
                               "replicate-does-not-fit-its-sample")))
            \cup (IF o.ll = << >> THEN {}
                  ELSE Only(o.kept = o.ll /\ Len(o.ll) = n /\ AllReal(o.ll) /\ \A k \in 1..n :
                         ~Moderate(C0, th[k]) \/ IsL(o.ll[k], LogLik(C0, th[k], ones, Zero)),
                       "replicate-log-likelihoods"))
            \cup (IF o.norm = << >> THEN {}
                  ELSE Only(Len(o.norm) = n /\ AllReal(o.norm) /\ \A k \in 1..n :
                         \/ ~(Moderate(C0, th[k]) /\ Smooth(C0, th[k]))
                         \/ LET g == Gradient(C0, th[k], IF e.route = "given" THEN Nums(e.w) ELSE ones, R(e.nridge))
                            IN  Near(R(o.norm[k]), RSqrt(RSum([i \in 1..Len(g) |-> Sq(g[i])])),
                                     R("1e-6"), R("1e-7")),
                       "replicate-gradient-norms"))

(* ---- P26 ---------------------------------------------------------------------- *)
(* out.table: one row per parameter, the two end points; out.cols the two   *)
(* percentages of the column labels                                         *)
Percentages(e) ==
    LET lo == LowTail(R(e.level))
        hi == HighTail(R(e.level))
    IN  /\ Len(e.out.cols) = 2 /\ AllReal(e.out.cols)
        /\ Near(R(e.out.cols[1]), lo, R("0.006"), Zero)
        /\ Near(R(e.out.cols[2]), hi, R("0.006"), Zero)
IntervalFailing(e) ==
    LET K == Len(e.reps)                      \* columns
        o == e.out
        lev == R(e.level)
    IN  IF ~(Len(o.table) = K /\ \A k \in 1..K : Len(o.table[k]) = 2 /\ AllReal(o.table[k]))
        THEN {"interval-shape"}
        ELSE
        (IF o.labelled = 0 THEN {} ELSE
           Only(o.index = e.labels, "interval-labels") \cup Only(Percentages(e), "interval-percentages"))
        \cup UNION {
          LET col == Nums(e.reps[k])
              lo == R(o.table[k][1])
              hi == R(o.table[k][2])
          IN  IF e.route = "pi"
              THEN Only(LowerEnd(col, LowTail(lev), lo), "percentile-lower-end")
                   \cup Only(UpperEnd(col, HighTail(lev), hi), "percentile-upper-end")
              ELSE LET mle == R(e.mle[k])
                   IN  IF ~BcaDefined(col, mle) THEN {}
                       ELSE LET z0 == BiasZ(col, mle)
                                a == Acceleration(Nums(e.jack[k]))
                            IN  IF \E p \in {LowTail(lev), HighTail(lev)} :
                                     BcaDenominator(z0, a, p) \preceq R("0.05") THEN {}
                                ELSE Only(LowerEnd(col, BcaPercent(z0, a, LowTail(lev)), lo), "bca-lower-end")
                                     \cup Only(UpperEnd(col, BcaPercent(z0, a, HighTail(lev)), hi), "bca-upper-end")
          : k \in 1..K}
ValidLevel(e) == e.numeric = 1 /\ IsReal(e.level) /\ Zero \prec R(e.level) /\ R(e.level) \prec Hundred
RefusalFailing(e) ==
    IF ValidLevel(e) THEN Only(e.refused = "", "valid-level-refused")
    ELSE Only(e.refused # "", "invalid-level-accepted")

(* ---- P27 ---------------------------------------------------------------------- *)
AbcFailing(e) ==
    LET C == Prepare(e.tab, e.M)
        v == Nums(e.w)
        o == e.out
        K == Len(e.mle)
    IN  IF ~(Len(o.table) = K /\ \A k \in 1..K : Len(o.table[k]) = 2 /\ AllReal(o.table[k]))
        THEN {"interval-shape"}
        ELSE
        LET m == WMle(C, v, Nums(e.mle), 30)
            want == Abc(C, v, R(e.eps), m, R(e.level))
            tol == R(e.tol)
        IN  (IF o.labelled = 0 THEN {} ELSE
               Only(o.index = e.labels, "interval-labels") \cup Only(Percentages(e), "interval-percentages"))
            \cup Only(\A k \in 1..K : want[k][1] # "ok" \/ Near(R(o.table[k][1]), want[k][2], tol, tol),
                      "abc-lower-end")
            \cup Only(\A k \in 1..K : want[k][1] # "ok" \/ Near(R(o.table[k][2]), want[k][3], tol, tol),
                      "abc-upper-end")
(* observation weights spread to rows *)
SpreadFailing(e) ==
    LET oq == FirstSeen(e.tab.obs)
    IN  Only(Len(e.out.cols) = Len(e.wide) /\ \A c \in 1..Len(e.wide) :
               /\ Len(e.out.cols[c]) = Len(e.tab.obs) /\ AllReal(e.out.cols[c])
               /\ \A r \in 1..Len(e.tab.obs) :
                    NearR(R(e.out.cols[c][r]), R(e.wide[c][Index(oq, e.tab.obs[r])])),
             "spread-weights")

BootFailing(e) ==
    IF e.kind = "refusal" THEN RefusalFailing(e)
    ELSE IF e.err # "" THEN {"refused-valid-input"}
    ELSE CASE e.kind = "samples"    -> SampleFailing(e)
           [] e.kind = "frame"      -> FrameFailing(e)
           [] e.kind = "replicates" -> ReplicateFailing(e)
           [] e.kind = "interval"   -> IntervalFailing(e)
           [] e.kind = "abc"        -> AbcFailing(e)
           [] e.kind = "spread"     -> SpreadFailing(e)
=============================================================================
