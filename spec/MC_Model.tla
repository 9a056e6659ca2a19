------------------------------ MODULE MC_Model ------------------------------
(* Small choice problems: a table is built observation by observation (any  *)
(* choice set, order of rows and choice), then a model is defined on it     *)
(* (every type, reference position, nesting, mixing) and evaluated.  Every  *)
(* problem is a scenario for the implementation; the theorems are what the  *)
(* models promise of each other.                                            *)
EXTENDS Calc, Json
CONSTANTS AltIds, MaxObs, Types

Alts == Sorted(AltIds)
J == Len(Alts)
VARIABLES q,      \* observations: [av: choice set in row order, c: choice]
          def     \* model definition, [type |-> ""] before it is chosen
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
NoDef == [type |-> "", iref |-> -1, sref |-> 0, nests |-> << >>, mix |-> << >>, panel |-> 0]
Init == q = << >> /\ def = NoDef

AddObs(S, c, back) ==
    /\ def.type = "" /\ Len(q) < MaxObs
    /\ Cardinality(S) >= 2 /\ c \in S
    /\ q' = Append(q, [av |-> IF back THEN Rev(Sorted(S)) ELSE Sorted(S), c |-> c])
    /\ UNCHANGED def

(* partitions of the alternatives into nests, in any order *)
Nestings ==
    { << Alts >>, [k \in 1..J |-> << Alts[J + 1 - k] >>] }
    \cup { << << Alts[k] >>, Sorted(AltIds \ {Alts[k]}) >> : k \in 1..J }
    \cup { << Rev(Sorted(AltIds \ {Alts[k]})), << Alts[k] >> >> : k \in 1..J }
Refs == (0-1)..(J-1)
Define(t, i, s, n, m, p) ==
    /\ t \in Types /\ def.type = "" /\ Len(q) = MaxObs
    /\ UNION {Rng(q[k].av) : k \in 1..Len(q)} = AltIds
    /\ def' = [type |-> t, iref |-> i, sref |-> s, nests |-> n, mix |-> m, panel |-> p]
    /\ UNCHANGED q
Next ==
    \/ \E S \in SUBSET AltIds, c \in AltIds, back \in BOOLEAN : AddObs(S, c, back)
    \/ Define("MNL", -1, 0, << >>, << >>, 0)
    \/ \E i \in Refs, t \in {"Cloglog", "Scobit", "Uneven"} : Define(t, i, 0, << >>, << >>, 0)
    \/ \E i \in Refs, s \in 0..(J-1) : Define("Asym", i, s, << >>, << >>, 0)
    \/ \E n \in Nestings : Define("Nested", -1, 0, n, << >>, 0)
    \/ \E m \in {<< 1 >>, << 3, 2 >>}, p \in {0, 1} : Define("Mixed", -1, 0, << >>, m, p)

(* ---- the table, the model and two parameter vectors ------------------------ *)
RECURSIVE RowsTo(_)
RowsTo(k) == IF k = 0 THEN << >>
             ELSE RowsTo(k-1) \o [j \in 1..Len(q[k].av) |->
                    [o |-> 10 - 3 * k, a |-> q[k].av[j], c |-> IF q[k].av[j] = q[k].c THEN 1 ELSE 0]]
Digit(o, a, m) == ((7 * o + 3 * a + 4 * m) % 7) - 3      \* "data": -3..3
T == LET r == RowsTo(Len(q))
     IN  [ obs |-> [k \in 1..Len(r) |-> r[k].o], alt |-> [k \in 1..Len(r) |-> r[k].a],
           ch |-> [k \in 1..Len(r) |-> r[k].c],
           ind |-> [k \in 1..Len(r) |-> IF def.panel = 1 THEN 1 ELSE r[k].o],
           x |-> [m \in 1..2 |-> [k \in 1..Len(r) |-> ToString(Digit(r[k].o, r[k].a, m))]] ]
Spec2 == << [v |-> 1, g |-> << Alts >>],
            [v |-> 2, g |-> << << Alts[J] >>, [k \in 1..(J-1) |-> Alts[k]] >>] >>
NInds == IF def.panel = 1 THEN 1 ELSE Len(q)
M == [ type |-> def.type, spec |-> Spec2, iref |-> def.iref, sref |-> def.sref,
       nests |-> def.nests, mix |-> def.mix,
       draws |-> [m \in 1..Len(def.mix) |-> [i \in 1..NInds |-> [d \in 1..2 |->
                    ToString(((5 * m + 3 * i + 7 * d) % 5) - 2)]]] ]
NumeralOf(k) == << "0.3", "-0.7", "0.55", "-0.2", "0.9", "0.15", "-0.4", "0.65", "-0.1" >>[k]
Theta == [k \in 1..NParam(M, J) |-> NumeralOf(k)]
Done == def.type # ""
Emit == Done => PrintT("@G " \o ToJson([tab |-> T, M |-> M, th |-> Theta]))

(* ---- theorems ------------------------------------------------------------------ *)
Tight == R("1e-30")
C == Prepare(T, M)
th == Nums(Theta)
Like(m, t) == Prepare(T, [M EXCEPT !.type = m, !.iref = -1, !.nests = << >>, !.mix = << >>, !.draws = << >>])
Mnl(b) == LogitProbs(Like("MNL", 0), IndexV(Like("MNL", 0), b))
Beta == PartBeta(M, J, th)
P == Probs(C, th)

Distribution == Done =>
    LET p == P
    IN  /\ \A r \in 1..C.S.n : Zero \prec p[r] /\ p[r] \preceq One
        /\ \A o \in 1..C.S.nobs :
             Near(RSum([k \in 1..Len(C.S.rows[o]) |-> p[C.S.rows[o][k]]]), One, Tight, Zero)
(* at the null values of its extra parameters every model is a conditional logit *)
Zeros(n) == [k \in 1..n |-> Zero]
NullTheta == Zeros(NShape(M, J) + NInt(M, J)) \o Beta
Reduces == Done =>
    CASE def.type = "MNL" -> NearSeq(P, Mnl(th), Tight, Zero)
      [] def.type \in {"Scobit", "Uneven"} ->
           NearSeq(Probs(C, Tab(NullTheta)), Mnl(Beta), Tight, Zero)
      [] def.type = "Asym" ->      \* equal shapes: utilities times ln J
           NearSeq(Probs(C, Tab(NullTheta)),
                   Mnl([k \in 1..Len(Beta) |-> Beta[k] \otimes RLn(R(J))]), Tight, Zero)
      [] def.type = "Cloglog" -> TRUE
      [] def.type = "Nested" ->    \* dissimilarity one
           NearSeq(NestedProbsL(C, IndexV(C, th), [k \in 1..Len(def.nests) |-> One]), Mnl(Beta), Tight, Zero)
      [] def.type = "Mixed" ->     \* no spread
           NearSeq(Probs(C, Tab(Beta \o Zeros(NSpread(M)))), Mnl(Beta), Tight, Zero)
(* probabilities of an observation do not depend on the others: the same     *)
(* model on the table without the last observation (if no alternative is lost) *)
Shorter == LET n == Len(T.obs) - Len(q[Len(q)].av)
           IN  [ obs |-> SubSeq(T.obs, 1, n), alt |-> SubSeq(T.alt, 1, n), ch |-> SubSeq(T.ch, 1, n),
                 ind |-> SubSeq(T.ind, 1, n), x |-> [m \in 1..2 |-> SubSeq(T.x[m], 1, n)] ]
Separate == Done /\ Rng(Shorter.alt) = AltIds =>
    LET D == Prepare(Shorter, M)
    IN  NearSeq(Probs(D, th), SubSeq(P, 1, Len(Shorter.alt)), Tight, Zero)
(* the derivative of the conditional logit objective is sum w (y - p) x, its  *)
(* second derivative the negative weighted covariance of x                    *)
W == [r \in 1..C.S.n |-> R(C.S.oi[r] + 1)]
Score == def.type = "MNL" =>
    LET g == Gradient(C, th, W, R("0.5"))
        p == P
    IN  \A k \in 1..Len(th) :
          Near(g[k], RSum([r \in 1..C.S.n |-> (W[r] \otimes (R(T.ch[r]) \ominus p[r])) \otimes C.X[r][k]])
                       \ominus th[k], R("1e-18"), R("1e-18"))
Curvature == def.type = "MNL" =>
    LET H == Hessian(C, th, W, R("0.5"))
        e == R("1e-10")
    IN  \A k \in 1..Len(th) :
          LET a == Gradient(C, Bump(th, k, e), W, R("0.5"))
              b == Gradient(C, Bump(th, k, Neg(e)), W, R("0.5"))
          IN  \A l \in 1..Len(th) :
                Near(H[k][l], (a[l] \ominus b[l]) \oslash (Two \otimes e), R("1e-9"), R("1e-9"))
(* an observation of weight two is an observation twice                       *)
Twice == LET n == Len(q[1].av)
             ap(s) == s \o SubSeq(s, 1, n)
         IN  [ obs |-> T.obs \o [k \in 1..n |-> 99], alt |-> ap(T.alt), ch |-> ap(T.ch),
               ind |-> T.ind \o [k \in 1..n |-> 99], x |-> [m \in 1..2 |-> ap(T.x[m])] ]
Copies == Done /\ def.type # "Mixed" =>
    LET D == Prepare(Twice, M)
        w == [r \in 1..C.S.n |-> IF C.S.oi[r] = 1 THEN Two ELSE One]
    IN  Near(LogLik(C, th, w, R("0.3")), LogLik(D, th, [r \in 1..D.S.n |-> One], R("0.3")), Tight, Zero)
=============================================================================
