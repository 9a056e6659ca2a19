------------------------------- MODULE MC_Boot -------------------------------
(* Drawing bootstrap samples: from each of a family of small tables, one    *)
(* observation after another within each alternative's choosers.  Every     *)
(* complete sample is a scenario for the implementation.                    *)
EXTENDS Boot, Json
CONSTANTS ObsIds, AltIds, MaxObs

(* tables: observations in some order, each with a choice and its choice set *)
VARIABLES q,        \* observations of the table: sequence of [o, c, av]
          closed,   \* the table is complete
          s         \* the sample drawn so far

Init == q = << >> /\ closed = FALSE /\ s = << >>
AddObs(o, c, av) ==
    /\ ~closed /\ Len(q) < MaxObs
    /\ \A k \in 1..Len(q) : q[k].o # o
    /\ c \in av /\ Cardinality(av) >= 2
    /\ q' = Append(q, [o |-> o, c |-> c, av |-> av])
    /\ UNCHANGED << closed, s >>
Close == /\ ~closed /\ Len(q) = MaxObs /\ closed' = TRUE /\ UNCHANGED << q, s >>

RECURSIVE RowsUpTo(_)
RowsUpTo(k) == IF k = 0 THEN << >>
               ELSE LET a == Sorted(q[k].av)
                    IN  RowsUpTo(k-1) \o [j \in 1..Len(a) |->
                          [o |-> q[k].o, a |-> a[j], c |-> IF a[j] = q[k].c THEN 1 ELSE 0]]
T == LET r == RowsUpTo(Len(q))
     IN  [ obs |-> [k \in 1..Len(r) |-> r[k].o], alt |-> [k \in 1..Len(r) |-> r[k].a],
           ch |-> [k \in 1..Len(r) |-> r[k].c], ind |-> [k \in 1..Len(r) |-> r[k].o],
           x |-> << [k \in 1..Len(r) |-> ToString(7 * k)] >> ]
(* the alternatives the draws belong to, one after another *)
RECURSIVE Strata(_)
Strata(as) == IF as = << >> THEN << >>
              ELSE [k \in 1..Cardinality({j \in 1..Len(q) : q[j].c = as[1]}) |-> as[1]]
                     \o Strata(Tail(as))
Draw(o) ==
    /\ closed /\ Len(s) < Len(q)
    /\ LET a == Strata(Sorted({q[j].c : j \in 1..Len(q)}))[Len(s) + 1]
       IN  \E j \in 1..Len(q) : q[j].o = o /\ q[j].c = a
    /\ s' = Append(s, o)
    /\ UNCHANGED << q, closed >>
    /\ IF Len(s') = Len(q) THEN PrintT("@G " \o ToJson([q |-> q, s |-> s'])) ELSE TRUE
Next == \/ \E o \in ObsIds, c \in AltIds, av \in SUBSET AltIds : AddObs(o, c, av)
        \/ Close
        \/ \E o \in ObsIds : Draw(o)

Complete == closed /\ Len(s) = Len(q)
B == SampleTable(T, s)
CompleteIsSample == Complete => IsSample(T, s)
(* the sample's table: observations 1..n, each a copy of the one drawn, the *)
(* number choosing each alternative unchanged                               *)
WholeSituations ==
    Complete =>
      /\ ObsOf(B) = 1..Len(q) /\ Contiguous(B.obs)
      /\ \A k \in 1..Len(q) :
           {<< B.alt[r], B.ch[r], B.x[1][r] >> : r \in {r \in 1..Len(B.obs) : B.obs[r] = k}}
           = {<< T.alt[r], T.ch[r], T.x[1][r] >> : r \in {r \in 1..Len(T.obs) : T.obs[r] = s[k]}}
SharesKept ==
    Complete => \A a \in AltIds : Cardinality(Choosers(B, a)) = Cardinality(Choosers(T, a))
(* leaving one observation out loses its rows and nothing else *)
LeaveOneOut ==
    closed /\ s = << >> => \A o \in ObsOf(T) :
      LET J == JackTable(T, o)
      IN  /\ ObsOf(J) = ObsOf(T) \ {o}
          /\ Len(J.obs) = Len(T.obs) - Len(RowsOf(T.obs, o))
=============================================================================
