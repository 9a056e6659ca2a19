----------------------------- MODULE TableTrace -----------------------------
(* Executions of the table operations.                                      *)
EXTENDS Table, Replay

Only(b, name) == IF b THEN {} ELSE {name}
SameNums(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]

DesignFailing(e) ==
    LET D == DesignOf(e.alt, e.cols, e.spec)
        L == LabelsOf(e.alt, e.spec, e.names)
        d == e.out.design
    IN  IF Len(d) # Len(D) \/ \E r \in 1..Len(d) : Len(d[r]) # Len(D[1])
        THEN {"design-shape"}
        ELSE IF \E r \in 1..Len(d) : ~AllReal(d[r]) THEN {"design-finite"}
        ELSE Only(\A r \in 1..Len(d) : \A c \in 1..Len(D[1]) : R(d[r][c]) = D[r][c],
                  "design-values")
             \cup Only(e.out.labels = L, "design-labels")

MapFailing(e) ==
    Only(e.out.obs = ObsMap(e.tab), "rows-to-observations")
    \cup Only(e.out.alt = AltMap(e.tab), "rows-to-alternatives")
    \cup Only(e.out.cho = ChosenMap(e.tab), "chosen-rows")
    \cup Only(e.out.nest = NestMap(e.tab, e.nests), "rows-to-nests")
    \cup Only(e.out.ind = IndMap(e.tab), "rows-to-individuals")

(* out.cols: column names; out.rows: sequence of rows of numerals *)
L2WFailing(e) ==
    LET T == e.tab
        cs == e.out.cols
        rows == e.out.rows
        obsAt == IF e.A.obscol \in Rng(cs) THEN Index(cs, e.A.obscol) ELSE 0
        expected(o) == WideCells(T, e.cols, e.A, o)
        names(o) == {c[1] : c \in expected(o)}
        got(row) == {<< cs[k], row[k] >> : k \in 1..Len(cs)}
    IN  IF obsAt = 0 \/ Cardinality(Rng(cs)) # Len(cs)
           \/ \E r \in 1..Len(rows) : Len(rows[r]) # Len(cs)
        THEN {"wide-columns"}
        ELSE Only(Len(rows) = Cardinality(Rng(T.obs))
                  /\ {rows[r][obsAt] : r \in 1..Len(rows)} = {ToString(o) : o \in Rng(T.obs)},
                  "one-wide-row-per-observation")
             \cup Only(\A o \in Rng(T.obs) : Rng(cs) = names(o), "wide-columns")
             \cup Only(\A r \in 1..Len(rows) : \A o \in Rng(T.obs) :
                          rows[r][obsAt] = ToString(o) => got(rows[r]) = expected(o),
                       "wide-values")

W2LFailing(e) ==
    Only(e.out.cols = LongColumns(e.B), "long-columns")
    \cup Only(e.out.rows = LongRows(e.W, e.B), "long-rows")

(* round trip: records before and after *)
TripFailing(e) ==
    Only(Len(e.out.rows) = Len(e.before), "round-trip-number-of-rows")
    \cup Only(Rng(e.out.rows) = Rng(e.before), "round-trip-records")

ValidFailing(e) ==
    LET valid == IF e.dir = "l2w"
                 THEN ValidLong(e.tab, e.colnames, e.A)
                 ELSE ValidWide(e.W, e.B)
    IN  IF e.out.ok = 1 THEN Only(valid, "accepted-malformed-" \o e.dir)
        ELSE Only(~valid, "refused-valid-" \o e.dir)

TableFailing(e) ==
    IF e.kind # "valid" /\ e.err # "" THEN {"refused-valid-input"}
    ELSE CASE e.kind = "design" -> DesignFailing(e)
           [] e.kind = "map"    -> MapFailing(e)
           [] e.kind = "l2w"    -> L2WFailing(e)
           [] e.kind = "w2l"    -> W2LFailing(e)
           [] e.kind = "trip"   -> TripFailing(e)
           [] e.kind = "valid"  -> ValidFailing(e)
=============================================================================
