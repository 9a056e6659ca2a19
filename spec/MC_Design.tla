------------------------------ MODULE MC_Design ------------------------------
(* All specification entries over three alternatives (with every grouping,  *)
(* order of groups and way of writing a single alternative), combined with  *)
(* a second variable and every order of names.                              *)
EXTENDS Table, Json, IOUtils
CONSTANT MaxGroups

Alts == {1, 3, 4}
VARIABLES items, second, naming, first
vars == << items, second, naming, first >>
SeqOf(S) == Sorted(S)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

Init == /\ items = << >>
        /\ second \in {"none", "all_same", "all_diff", "list"}
        /\ naming \in {"none", "same", "reversed"}
        /\ first \in {"all_same", "all_diff", "list"}
Used == UNION {Rng(items[k].alts) : k \in 1..Len(items)}
Next == /\ first = "list"
        /\ Len(items) < MaxGroups
        /\ \E G \in SUBSET (Alts \ Used) : \E one \in {0, 1}, back \in BOOLEAN :
              /\ G # {}
              /\ one = 1 => (Cardinality(G) = 1 /\ ~back)
              /\ back => Cardinality(G) > 1
              /\ items' = Append(items, [one |-> one,
                             alts |-> IF back THEN Rev(SeqOf(G)) ELSE SeqOf(G)])
        /\ UNCHANGED << second, naming, first >>

Entry1 == [var |-> "x", form |-> first, items |-> items]
Entry2 == [var |-> "y", form |-> second,
           items |-> IF second = "list" THEN << [one |-> 0, alts |-> << 4, 1 >>], [one |-> 1, alts |-> << 3 >>] >>
                     ELSE << >>]
Spec2 == IF second = "none" THEN << Entry1 >> ELSE << Entry1, Entry2 >>
Complete == first # "list" \/ items # << >>
(* a table with two observations, rows out of order, one alternative missing *)
alt == << 3, 1, 4, 4, 1 >>
cols == [ x |-> << "1.5", "-2", "0.25", "3", "7" >>, y |-> << "10", "0", "-30", "40.5", "50" >> ]
NameOf(e) == [k \in 1..Len(EntryGroups(e, Sorted(Alts))) |-> e.var \o "#" \o ToString(k)]
NamesIn == IF naming = "none" THEN << >>
           ELSE LET s == [k \in 1..Len(Spec2) |-> [var |-> Spec2[k].var, n |-> NameOf(Spec2[k])]]
                IN  IF naming = "same" THEN s ELSE Rev(s)
Scenario == [alt |-> alt, cols |-> cols, spec |-> Spec2, names |-> NamesIn]
Emit == Complete => PrintT("@G " \o ToJson(Scenario))

(* ---- theorems ----------------------------------------------------------- *)
D == DesignOf(alt, cols, Spec2)
L == LabelsOf(alt, Spec2, NamesIn)
OneLabelPerColumn == Complete => Len(L) = Len(D[1])
LabelsDistinct == Complete => Cardinality(Rng(L)) = Len(L)
\* a row's value appears in the columns of its alternative's groups only
Values == Complete => \A r \in 1..Len(alt) :
    LET g == EntryGroups(Entry1, Sorted(Alts))
        in == {c \in 1..Len(g) : alt[r] \in Rng(g[c])}
    IN  /\ Cardinality(in) <= 1
        /\ \A c \in 1..Len(g) : D[r][c] = (IF c \in in THEN R(cols.x[r]) ELSE Zero)
DiffSumsToSame == (first = "all_diff") => \A r \in 1..Len(alt) :
    RSum([c \in 1..3 |-> D[r][c]]) = R(cols.x[r])
=============================================================================
