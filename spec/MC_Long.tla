------------------------------- MODULE MC_Long -------------------------------
(* All small long-format tables, built row by row: theorems about mappings  *)
(* and conversions, and scenarios for replay against the implementation.    *)
EXTENDS Table, Json, IOUtils
CONSTANTS ObsIds, AltIds, MaxRows, AllowDup

VARIABLE t          \* sequence of rows [o, a, c]

Init == t = << >>
Add(o, a, c) ==
    /\ Len(t) < MaxRows
    /\ ~AllowDup => \A k \in 1..Len(t) : ~(t[k].o = o /\ t[k].a = a)
    /\ t' = Append(t, [o |-> o, a |-> a, c |-> c])
    /\ PrintT("@G " \o ToJson(t'))
Next == \E o \in ObsIds, a \in AltIds, c \in {0, 1} : Add(o, a, c)

T == [ obs |-> [k \in 1..Len(t) |-> t[k].o], alt |-> [k \in 1..Len(t) |-> t[k].a],
       ch |-> [k \in 1..Len(t) |-> t[k].c], ind |-> [k \in 1..Len(t) |-> t[k].o \div 5] ]
\* v: a value of its own for every row; z: an observation-level variable
cols == [ v |-> [k \in 1..Len(t) |-> ToString(100 + 7 * k)],
          z |-> [k \in 1..Len(t) |-> ToString(t[k].o * 3)] ]
A == [ obscol |-> "obs", altcol |-> "alt", chcol |-> "ch", ind |-> << "z" >>,
       alts |-> << "v" >>, subset |-> << >>, names |-> << >>, null |-> "nan" ]
colnames == << "obs", "alt", "ch", "v", "z" >>
Valid == Len(t) > 0 /\ ValidLong(T, colnames, A)

(* ---- theorems ----------------------------------------------------------- *)
RowSum(row) == Cardinality({c \in 1..Len(row) : row[c] = 1})
EveryRowHasOneObservationAndAlternative ==
    \A r \in 1..Len(t) : /\ RowSum(ObsMap(T)[r]) = 1
                         /\ RowSum(AltMap(T)[r]) = 1
                         /\ RowSum(IndMap(T)[r]) = 1
ChosenRowsAreOnePerObservation ==
    Valid => \A c \in 1..Cardinality(Rng(T.obs)) :
               Cardinality({r \in 1..Len(t) : ChosenMap(T)[r][c] = 1}) = 1

obsq == FirstSeen(T.obs)
WideNames == {c[1] : c \in WideCells(T, cols, A, obsq[1])}
W == [n \in WideNames |-> [i \in 1..Len(obsq) |->
        (CHOOSE c \in WideCells(T, cols, A, obsq[i]) : c[1] = n)[2]]]
altq == Sorted(Rng(T.alt))
B == [ obscol |-> "obs", chcol |-> "ch", altname |-> "alt", ind |-> << "z" >>,
       avail |-> [k \in 1..Len(altq) |-> [alt |-> altq[k], col |-> "availability_" \o ToString(altq[k])]],
       asv |-> << [name |-> "v", from |-> [k \in 1..Len(altq) |->
                     [alt |-> altq[k], col |-> "v_" \o ToString(altq[k])]]] >> ]
Records == {<< ToString(T.obs[r]), ToString(T.alt[r]), ToString(T.ch[r]), cols.z[r], cols.v[r] >>
               : r \in 1..Len(t)}
AllChosen == \A a \in Rng(T.alt) : \E r \in 1..Len(t) : T.alt[r] = a /\ T.ch[r] = 1
(* long -> wide -> long is the identity on the set of records *)
RoundTrip == (Valid /\ AllChosen) =>
                /\ ValidWide(W, B)
                /\ Len(LongRows(W, B)) = Len(t)
                /\ Rng(LongRows(W, B)) = Records
OneRowEach == Valid => \A o \in Rng(T.obs) :
                 Cardinality(WideCells(T, cols, A, o)) = Cardinality(WideNames)
=============================================================================
