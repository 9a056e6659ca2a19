------------------------------- MODULE Choice -------------------------------
(* Long-format choice data: one row per (observation, available alternative).*)
(* A table is a record                                                      *)
(*   obs, alt, ind : sequences of integer ids, one entry per row            *)
(*   ch            : sequence of 0/1, the row was chosen or not             *)
(*   x             : sequence of columns, each a sequence of numerals       *)
(* and everything the library derives from a table is derived here.         *)
EXTENDS Num, FiniteSets

Rng(s) == {s[k] : k \in 1..Len(s)}
(* the elements of a finite set of integers, in increasing order *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN << >>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                  IN  <<m>> \o Sorted(S \ {m})
Upto(n) == [k \in 1..n |-> k]

(* distinct values of s in order of first appearance *)
FirstSeen(s) ==
    LET heads == SelectSeq(Upto(Len(s)), LAMBDA k : \A j \in 1..(k-1) : s[j] # s[k])
    IN  Tab([k \in 1..Len(heads) |-> s[heads[k]]])
Index(s, v) == CHOOSE k \in 1..Len(s) : s[k] = v
IndexOr0(s, v) == IF v \in Rng(s) THEN Index(s, v) ELSE 0

RowsOf(ids, v) == SelectSeq(Upto(Len(ids)), LAMBDA r : ids[r] = v)

(* every observation's rows are adjacent *)
Contiguous(ids) ==
    \A r \in 2..Len(ids) : ids[r] = ids[r-1] \/ \A q \in 1..(r-1) : ids[q] # ids[r]

(* The structure of a table: observations and individuals in order of first *)
(* appearance, alternatives in sorted order.                                *)
Structure(T) ==
    LET n    == Len(T.obs)
        obsq == FirstSeen(T.obs)
        indq == FirstSeen(T.ind)
        altq == Sorted(Rng(T.alt))
        rows == Tab([o \in 1..Len(obsq) |-> RowsOf(T.obs, obsq[o])])
    IN  [ n    |-> n,
          obsq |-> obsq, nobs |-> Len(obsq),
          indq |-> indq, nind |-> Len(indq),
          altq |-> altq, nalt |-> Len(altq),
          rows |-> rows,
          oi   |-> Tab([r \in 1..n |-> Index(obsq, T.obs[r])]),
          ii   |-> Tab([r \in 1..n |-> Index(indq, T.ind[r])]),
          ai   |-> Tab([r \in 1..n |-> Index(altq, T.alt[r])]),
          \* row chosen in observation o (0: none)
          cho  |-> Tab([o \in 1..Len(obsq) |->
                     LET c == {r \in Rng(rows[o]) : T.ch[r] = 1}
                     IN  IF Cardinality(c) = 1 THEN CHOOSE r \in c : TRUE ELSE 0]),
          \* observations of individual i
          iobs |-> Tab([i \in 1..Len(indq) |->
                     SelectSeq(Upto(Len(obsq)), LAMBDA o : T.ind[rows[o][1]] = indq[i])]) ]

(* A specification is a sequence of [v |-> column, g |-> groups], each group *)
(* a sequence of alternatives; coefficients in order of entries then groups. *)
RECURSIVE CoefTo(_, _)
CoefTo(spec, k) ==
    IF k = 0 THEN << >>
    ELSE CoefTo(spec, k-1) \o
         [j \in 1..Len(spec[k].g) |-> [v |-> spec[k].v, g |-> spec[k].g[j]]]
Coefs(spec) == Tab(CoefTo(spec, Len(spec)))

(* the design matrix: row r, coefficient c *)
DesignCell(T, c, r) == IF T.alt[r] \in Rng(c.g) THEN R(T.x[c.v][r]) ELSE Zero
Design(T, spec) ==
    LET cs == Coefs(spec)
    IN  Tab([r \in 1..Len(T.obs) |-> [k \in 1..Len(cs) |-> DesignCell(T, cs[k], r)]])
=============================================================================
