------------------------------- MODULE MC_Wide -------------------------------
(* All small wide-format tables, valid and malformed, and orders of the     *)
(* alternatives in the arguments.                                           *)
EXTENDS Table, Json, IOUtils
CONSTANTS Ids, MaxObs, Choices       \* Choices may contain blanks and unknowns

Alts == {4, 2}
VARIABLES w, flip
Init == w = << >> /\ flip \in BOOLEAN
Next == /\ Len(w) < MaxObs
        /\ \E id \in Ids, a2, a4 \in {0, 1}, c \in Choices :
              w' = Append(w, [id |-> id, a2 |-> a2, a4 |-> a4, c |-> c])
        /\ UNCHANGED flip
        /\ PrintT("@G " \o ToJson([w |-> w', flip |-> flip]))

n == Len(w)
W == [ obs |-> [i \in 1..n |-> ToString(w[i].id)],
       choice |-> [i \in 1..n |-> w[i].c],
       av2 |-> [i \in 1..n |-> ToString(w[i].a2)],
       av4 |-> [i \in 1..n |-> ToString(w[i].a4)],
       z |-> [i \in 1..n |-> ToString(10 * i)],
       u2 |-> [i \in 1..n |-> ToString(100 + i)],
       u4 |-> [i \in 1..n |-> ToString(200 + i)] ]
two == [alt |-> 2, col |-> "av2"]
four == [alt |-> 4, col |-> "av4"]
B == [ obscol |-> "obs", chcol |-> "choice", altname |-> "alt", ind |-> << "z" >>,
       avail |-> IF flip THEN << four, two >> ELSE << two, four >>,
       asv |-> << [name |-> "u", from |-> << [alt |-> 2, col |-> "u2"], [alt |-> 4, col |-> "u4"] >>] >> ]
Bswap == [B EXCEPT !.avail = IF flip THEN << two, four >> ELSE << four, two >>]
Valid == n > 0 /\ ValidWide(W, B)

(* ---- theorems ----------------------------------------------------------- *)
OrderOfArgumentsIrrelevant == n > 0 => /\ LongRows(W, B) = LongRows(W, Bswap)
                                       /\ ValidWide(W, B) = ValidWide(W, Bswap)
OneRowPerAvailablePair ==
    Valid => Len(LongRows(W, B)) = Cardinality({i \in 1..n : w[i].a2 = 1})
                                   + Cardinality({i \in 1..n : w[i].a4 = 1})
OneChoicePerObservation ==
    Valid => \A i \in 1..n :
        Cardinality({k \in 1..Len(LongRows(W, B)) : LET r == LongRows(W, B)[k]
                       IN r[1] = W.obs[i] /\ r[3] = "1"}) = 1
=============================================================================
