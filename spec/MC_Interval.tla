----------------------------- MODULE MC_Interval -----------------------------
(* Intervals of every small column of replicates at several levels: end     *)
(* points exist, are ordered, and grow with the level; the BCa percentages  *)
(* reduce to the nominal ones without bias and skewness.                    *)
EXTENDS Boot, Json
CONSTANTS Values, MaxLen, Levels

VARIABLE col
Init == col = << >>
Add(v) == /\ Len(col) < MaxLen /\ col' = Append(col, v)
          /\ IF Len(col') >= 2 THEN PrintT("@G " \o ToJson(col')) ELSE TRUE
Next == \E v \in Values : Add(v)

C == Nums([k \in 1..Len(col) |-> ToString(col[k])])
Ends(P(_)) == {v \in Values : P(R(v))}
Lows(l) == Ends(LAMBDA v : LowerEnd(C, LowTail(R(l)), v))
Highs(l) == Ends(LAMBDA v : UpperEnd(C, HighTail(R(l)), v))
EndsExist == Len(col) > 0 => \A l \in Levels : Lows(l) # {} /\ Highs(l) # {}
                                /\ Lows(l) \subseteq Rng(col) /\ Highs(l) \subseteq Rng(col)
Ordered == Len(col) > 0 => \A l \in Levels : \A a \in Lows(l), b \in Highs(l) : a <= b
(* a wider level contains the narrower interval *)
Widens == Len(col) > 0 => \A l, m \in Levels : l < m =>
             \A a \in Lows(l), b \in Lows(m), c \in Highs(l), d \in Highs(m) : b <= a /\ c <= d
NoCorrection == Len(col) > 0 \/ \A l \in Levels :
                  \A p \in {LowTail(R(l)), HighTail(R(l))} :
                    Near(BcaPercent(Zero, Zero, p), p, R("1e-30"), Zero)
Symmetric == Len(col) > 1 =>   \* a column and its mirror image have opposite skewness
    Near(Acceleration(C), Neg(Acceleration(Tab([k \in 1..Len(C) |-> Neg(C[k])]))), R("1e-30"), R("1e-30"))
=============================================================================
