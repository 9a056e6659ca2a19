-------------------------------- MODULE Table --------------------------------
(* Design matrices, row mappings, and conversion between long and wide      *)
(* format.                                                                  *)
EXTENDS Choice

RECURSIVE JoinTo(_, _, _)
JoinTo(s, sep, k) == IF k = 0 THEN ""
                     ELSE IF k = 1 THEN s[1]
                     ELSE JoinTo(s, sep, k-1) \o sep \o s[k]
Join(s, sep) == JoinTo(s, sep, Len(s))
RECURSIVE FlatTo(_, _)
FlatTo(s, k) == IF k = 0 THEN << >> ELSE FlatTo(s, k-1) \o s[k]
Flat(s) == FlatTo(s, Len(s))
Pos(s, P(_)) == CHOOSE k \in 1..Len(s) : P(s[k])

----------------------------------------------------------------------------
(* ---- Specifications as users write them -------------------------------- *)
(* An entry is [var, form, items]: var a column name; form "all_same",      *)
(* "all_diff" or "list"; items, for "list", a sequence of                   *)
(* [one |-> 1 if a bare alternative else 0, alts |-> sequence].             *)
EntryGroups(e, altq) ==
    CASE e.form = "all_same" -> << altq >>
      [] e.form = "all_diff" -> [k \in 1..Len(altq) |-> << altq[k] >>]
      [] OTHER -> [k \in 1..Len(e.items) |-> e.items[k].alts]

ListText(s) == "[" \o Join([k \in 1..Len(s) |-> ToString(s[k])], ", ") \o "]"
EntryLabels(e, altq) ==
    CASE e.form = "all_same" -> << e.var >>
      [] e.form = "all_diff" -> [k \in 1..Len(altq) |-> e.var \o "_" \o ToString(altq[k])]
      [] OTHER -> [k \in 1..Len(e.items) |->
           e.var \o "_" \o (IF e.items[k].one = 1 THEN ToString(e.items[k].alts[1])
                            ELSE ListText(e.items[k].alts))]

(* cols: record column name -> sequence of numerals; "intercept" is 1       *)
Cell(cols, var, r) == IF var = "intercept" /\ var \notin DOMAIN cols THEN "1" ELSE cols[var][r]

DesignOf(alt, cols, spec) ==
    LET altq == Sorted(Rng(alt))
        grp  == Flat([k \in 1..Len(spec) |->
                  LET g == EntryGroups(spec[k], altq)
                  IN  [j \in 1..Len(g) |-> [var |-> spec[k].var, g |-> g[j]]]])
    IN  [r \in 1..Len(alt) |-> [c \in 1..Len(grp) |->
           IF alt[r] \in Rng(grp[c].g) THEN R(Cell(cols, grp[c].var, r)) ELSE Zero]]
(* names: << >> or a sequence of [var, n] in any order, one per variable    *)
LabelsOf(alt, spec, names) ==
    LET altq == Sorted(Rng(alt))
    IN  Flat([k \in 1..Len(spec) |->
          IF names = << >> THEN EntryLabels(spec[k], altq)
          ELSE names[Pos(names, LAMBDA m : m.var = spec[k].var)].n])

----------------------------------------------------------------------------
(* ---- Row mappings --------------------------------------------------------- *)
MapTo(ids, order) == [r \in 1..Len(ids) |-> [c \in 1..Len(order) |->
                        IF ids[r] = order[c] THEN 1 ELSE 0]]
ObsMap(T)  == MapTo(T.obs, FirstSeen(T.obs))
AltMap(T)  == MapTo(T.alt, Sorted(Rng(T.alt)))
IndMap(T)  == MapTo(T.ind, FirstSeen(T.ind))
NestMap(T, nests) == [r \in 1..Len(T.alt) |-> [b \in 1..Len(nests) |->
                        IF T.alt[r] \in Rng(nests[b]) THEN 1 ELSE 0]]
ChosenMap(T) == LET m == ObsMap(T) IN
    [r \in 1..Len(T.obs) |-> [c \in 1..Len(m[r]) |-> m[r][c] * T.ch[r]]]

----------------------------------------------------------------------------
(* ---- Long format -> wide format ------------------------------------------- *)
(* A : [ind |-> names, alts |-> names, subset |-> seq of [var, alts],       *)
(*      names |-> seq of [alt, name] or << >>, null |-> numeral or "nan"]   *)
(* cols : record column -> numerals.  The wide table is a function from     *)
(* observation id to a record column -> numeral.                            *)
AltName(A, a) == IF A.names = << >> THEN ToString(a)
                 ELSE A.names[Pos(A.names, LAMBDA m : m.alt = a)].name
RowOf(T, o, a) == CHOOSE r \in 1..Len(T.obs) : T.obs[r] = o /\ T.alt[r] = a
HasRow(T, o, a) == \E r \in 1..Len(T.obs) : T.obs[r] = o /\ T.alt[r] = a

WideCells(T, cols, A, o) ==   \* set of <<column name, numeral>>
    LET altq == Sorted(Rng(T.alt))
        first == CHOOSE r \in 1..Len(T.obs) : T.obs[r] = o
        chosen == CHOOSE r \in 1..Len(T.obs) : T.obs[r] = o /\ T.ch[r] = 1
        cell(var, a) == IF HasRow(T, o, a) THEN cols[var][RowOf(T, o, a)] ELSE A.null
    IN  {<< A.obscol, ToString(o) >>, << A.chcol, ToString(T.alt[chosen]) >>}
        \cup {<< "availability_" \o AltName(A, a), IF HasRow(T, o, a) THEN "1" ELSE "0" >>
                 : a \in Rng(T.alt)}
        \cup {<< A.ind[k], cols[A.ind[k]][first] >> : k \in 1..Len(A.ind)}
        \cup {<< A.alts[k] \o "_" \o AltName(A, a), cell(A.alts[k], a) >>
                 : k \in 1..Len(A.alts), a \in Rng(T.alt)}
        \cup UNION {{<< A.subset[k].var \o "_" \o AltName(A, a), cell(A.subset[k].var, a) >>
                 : a \in Rng(A.subset[k].alts)} : k \in 1..Len(A.subset)}

(* Validity of a conversion request; colnames: names of the table's columns *)
ValidLong(T, colnames, A) ==
    /\ \A c \in Rng(A.ind) \cup Rng(A.alts) \cup {A.subset[k].var : k \in 1..Len(A.subset)}
               \cup {A.obscol, A.altcol, A.chcol} : c \in Rng(colnames)
    /\ \A r, s \in 1..Len(T.obs) : (T.obs[r] = T.obs[s] /\ T.alt[r] = T.alt[s]) => r = s
    /\ \A o \in Rng(T.obs) : Cardinality({r \in 1..Len(T.obs) : T.obs[r] = o /\ T.ch[r] = 1}) = 1
    /\ \A k \in 1..Len(A.names) : A.names[k].alt \in Rng(T.alt)

----------------------------------------------------------------------------
(* ---- Wide format -> long format ------------------------------------------- *)
(* W : record column -> numerals.  B : [obscol, chcol, altname,             *)
(*   avail |-> seq of [alt, col], ind |-> names,                            *)
(*   asv |-> seq of [name, from |-> seq of [alt, col]] ]                    *)
WAvail(B, a) == B.avail[Pos(B.avail, LAMBDA m : m.alt = a)].col
WAlts(B) == {B.avail[k].alt : k \in 1..Len(B.avail)}
NRowsW(W, B) == Len(W[B.obscol])
(* the long rows, in order: observation by observation, alternatives sorted *)
LongRow(W, B, i, a) ==
    << W[B.obscol][i], ToString(a), IF W[B.chcol][i] = ToString(a) THEN "1" ELSE "0" >>
    \o [k \in 1..Len(B.ind) |-> W[B.ind[k]][i]]
    \o [k \in 1..Len(B.asv) |->
          IF \E j \in 1..Len(B.asv[k].from) : B.asv[k].from[j].alt = a
          THEN W[B.asv[k].from[Pos(B.asv[k].from, LAMBDA m : m.alt = a)].col][i]
          ELSE "0"]
LongRows(W, B) ==
    LET altq == Sorted(WAlts(B))
    IN  Flat([i \in 1..NRowsW(W, B) |->
          LET av == SelectSeq(altq, LAMBDA a : W[WAvail(B, a)][i] # "0")
          IN  [k \in 1..Len(av) |-> LongRow(W, B, i, av[k])]])
LongColumns(B) == << B.obscol, B.altname, B.chcol >> \o B.ind
                  \o [k \in 1..Len(B.asv) |-> B.asv[k].name]

ValidWide(W, B) ==
    /\ \A c \in {B.obscol, B.chcol} \cup Rng(B.ind)
              \cup {B.avail[k].col : k \in 1..Len(B.avail)}
              \cup UNION {{B.asv[k].from[j].col : j \in 1..Len(B.asv[k].from)}
                             : k \in 1..Len(B.asv)} : c \in DOMAIN W
    /\ LET n == NRowsW(W, B)
           id == W[B.obscol]
           cv == W[B.chcol]
           altText == {ToString(a) : a \in WAlts(B)}
       IN  /\ \A i, j \in 1..n : id[i] = id[j] => i = j              \* ids unique
           /\ \A i \in 1..n : cv[i] # "nan" /\ cv[i] \in altText       \* known choice
           /\ \A a \in WAlts(B) : \E i \in 1..n : cv[i] = ToString(a)  \* all chosen
           /\ \A k \in 1..Len(B.asv) : \A j \in 1..Len(B.asv[k].from) :
                 \E i \in 1..n : cv[i] = ToString(B.asv[k].from[j].alt)
           /\ \A i \in 1..n : \A a \in WAlts(B) :
                 cv[i] = ToString(a) => W[WAvail(B, a)][i] # "0"       \* available
=============================================================================
