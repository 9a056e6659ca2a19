------------------------------- MODULE Relate -------------------------------
(* Relations between tables: replication by weights, rearrangement, and     *)
(* the conditional probabilities of panel prediction.                       *)
EXTENDS Calc

(* ---- replication ------------------------------------------------------------ *)
(* TR arises from T by copying every unit (observation, or individual for   *)
(* mixed logit) as often as its weight says: from[r] is the row of T that   *)
(* row r of TR copies.                                                      *)
Unit(M, T, r) == IF M.type = "Mixed" THEN T.ind[r] ELSE T.obs[r]
SameRow(T, r, TR, s) == /\ T.alt[r] = TR.alt[s] /\ T.ch[r] = TR.ch[s]
                        /\ \A c \in 1..Len(T.x) : T.x[c][r] = TR.x[c][s]
IsReplication(T, M, w, TR, from) ==
    /\ Len(from) = Len(TR.obs)
    /\ \A s \in 1..Len(from) : SameRow(T, from[s], TR, s)
    \* the rows of one unit of TR are the rows of one unit of T, once each
    /\ \A s, t \in 1..Len(from) :
         Unit(M, TR, s) = Unit(M, TR, t) => /\ Unit(M, T, from[s]) = Unit(M, T, from[t])
                                            /\ (from[s] = from[t] => s = t)
    /\ \A s, t \in 1..Len(from) : TR.obs[s] = TR.obs[t]
         => T.obs[from[s]] = T.obs[from[t]]
    \* every row of T appears as often as its weight says
    /\ \A r \in 1..Len(T.obs) : R(w[r]) = R(Cardinality({s \in 1..Len(from) : from[s] = r}))
(* the draws of a copied individual are those of the original *)
SameDraws(T, M, TR, MR, from) ==
    M.type = "Mixed" =>
      LET ii == Structure(T).ii
          jj == Structure(TR).ii
      IN  \A m \in 1..Len(M.mix) : \A s \in 1..Len(from) :
            MR.draws[m][jj[s]] = M.draws[m][ii[from[s]]]

(* ---- rearrangement ----------------------------------------------------------- *)
(* T2 holds the rows of T in another order (from[r]: row of T that row r of *)
(* T2 is), with ids renamed one to one and alternatives in the same order.  *)
OneToOne(a, b, from) == \A r, s \in 1..Len(from) : (a[from[r]] = a[from[s]]) <=> (b[r] = b[s])
Monotone(a, b, from) == \A r, s \in 1..Len(from) : (a[from[r]] < a[from[s]]) <=> (b[r] < b[s])
IsRearrangement(T, T2, from) ==
    /\ Len(from) = Len(T.obs) /\ Len(T2.obs) = Len(T.obs) /\ Rng(from) = 1..Len(T.obs)
    /\ \A r \in 1..Len(from) : /\ T.ch[from[r]] = T2.ch[r]
                               /\ \A c \in 1..Len(T.x) : T.x[c][from[r]] = T2.x[c][r]
    /\ OneToOne(T.obs, T2.obs, from) /\ OneToOne(T.ind, T2.ind, from)
    /\ Monotone(T.alt, T2.alt, from)
(* the model of the rearranged table: the same groups, renamed *)
Renamed(T, T2, from, a) == T2.alt[CHOOSE r \in 1..Len(from) : T.alt[from[r]] = a]
RenameAll(T, T2, from, s) == [k \in 1..Len(s) |-> Renamed(T, T2, from, s[k])]
SameModel(T, M, T2, M2, from) ==
    /\ M2.type = M.type /\ M2.iref = M.iref /\ M2.sref = M.sref /\ M2.mix = M.mix
    /\ Len(M2.spec) = Len(M.spec)
    /\ \A k \in 1..Len(M.spec) : /\ M2.spec[k].v = M.spec[k].v
          /\ M2.spec[k].g = [j \in 1..Len(M.spec[k].g) |-> RenameAll(T, T2, from, M.spec[k].g[j])]
    /\ M2.nests = [j \in 1..Len(M.nests) |-> RenameAll(T, T2, from, M.nests[j])]
    /\ SameDraws(T, M, T2, M2, from)

(* ---- panel prediction ----------------------------------------------------------- *)
(* T: estimation data, T2: new data; M.draws are the draws of T2's          *)
(* individuals.  The draws of an individual are weighted by the likelihood  *)
(* of its choices in T under the same draws.                                *)
PanelWeights(T, T2, M, th) ==
    LET S == Structure(T)
        S2 == Structure(T2)
        D == Len(M.draws[1][1])
        seen == SelectSeq(S.indq, LAMBDA i : i \in Rng(S2.indq))
        \* the estimation data of the individuals seen again, with their new draws
        rows == SelectSeq(Upto(S.n), LAMBDA r : T.ind[r] \in Rng(seen))
        P == [ obs |-> [k \in 1..Len(rows) |-> T.obs[rows[k]]],
               alt |-> [k \in 1..Len(rows) |-> T.alt[rows[k]]],
               ind |-> [k \in 1..Len(rows) |-> T.ind[rows[k]]],
               ch |-> [k \in 1..Len(rows) |-> T.ch[rows[k]]],
               x |-> [c \in 1..Len(T.x) |-> [k \in 1..Len(rows) |-> T.x[c][rows[k]]]] ]
        MP == [M EXCEPT !.draws = [m \in 1..Len(M.mix) |-> [i \in 1..Len(seen) |->
                   M.draws[m][Index(S2.indq, FirstSeen(P.ind)[i])]]]]
        CP == Prepare(P, MP)
        kp == IF seen = << >> THEN << >> ELSE KernelProbs(CP, th)
        lik(i) == LET j == Index(CP.S.indq, i)
                      q == CP.S.iobs[j]
                  IN  Tab([d \in 1..D |-> RProd([k \in 1..Len(q) |-> kp[d][CP.S.cho[q[k]]]])])
    IN  Tab([i \in 1..S2.nind |->
          IF S2.indq[i] \in Rng(seen)
          THEN LET l == lik(S2.indq[i])
                   s == RSum(l)
               IN  [d \in 1..D |-> l[d] \oslash s]
          ELSE [d \in 1..D |-> One \oslash R(D)]])
PanelProbs(T, T2, M, th) ==
    LET C == Prepare(T2, M)
        kp == KernelProbs(C, th)
        w == PanelWeights(T, T2, M, th)
    IN  Tab([r \in 1..C.S.n |-> RSum([d \in 1..NDraws(C) |-> w[C.S.ii[r]][d] \otimes kp[d][r]])])
=============================================================================
