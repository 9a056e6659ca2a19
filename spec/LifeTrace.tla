------------------------------ MODULE LifeTrace ------------------------------
(* Histories of operations (P21), and what operations do to the caller's    *)
(* objects (P22).                                                           *)
EXTENDS Life, Replay

Only(ok, name) == IF ok THEN {} ELSE {name}

(* ---- P21: e.steps = operations with results, e.refs = the results of the *)
(* same calls on models freshly built, fitted and asked in a process of     *)
(* their own.                                                               *)
SameVal(a, b) == \/ a = b
                 \/ /\ IsReal(a) /\ IsReal(b)
                    /\ Near(R(a), R(b), R("1e-7"), R("1e-9"))
SameRes(a, b) == /\ Len(a) = Len(b)
                 /\ \A k \in 1..Len(a) : /\ a[k][1] = b[k][1]
                                         /\ SameVal(a[k][2], b[k][2])
RefOf(e, key) == LET S == {k \in 1..Len(e.refs) : e.refs[k].key = key}
                 IN  IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
StepFailing(e, s, x) ==
    LET o == x.o
        key == Key(s, o)
        k == RefOf(e, key)
    IN  IF ~Possible(s, o) THEN {"history-not-a-behaviour"}
        ELSE IF o.op = "edit" THEN {}          \* the caller's own doing
        ELSE IF Refused(s, o)
        THEN Only(x.err # "", "answered-without-a-fit-" \o o.op)
        ELSE IF k = 0 THEN {"no-reference-" \o o.op}
        ELSE IF e.refs[k].err # "" /\ x.err # "" THEN {}
        ELSE IF x.err # "" \/ e.refs[k].err # "" THEN {"history-decides-error-" \o o.op}
        ELSE Only(SameRes(x.res, e.refs[k].res), "history-dependent-" \o o.op)
RECURSIVE Walk(_, _, _)
Walk(e, s, n) == IF n > Len(e.steps) THEN {}
                 ELSE StepFailing(e, s, e.steps[n])
                      \cup Walk(e, After(s, e.steps[n].o), n + 1)
(* a valid model's basic operations must work at all *)
Basic == {"create", "fit", "read", "predict", "predictother", "confint", "save", "load", "point"}
RefFailing(e) == UNION {IF e.refs[k].err # "" /\ e.refs[k].key.op \in Basic
                        THEN {"refused-" \o e.refs[k].key.op} ELSE {} : k \in 1..Len(e.refs)}

(* ---- P22: snapshots before and after of everything the caller holds ------ *)
(* a snapshot is [index, cols, atoms]: a table's index and columns, or the  *)
(* flattened contents of any other object                                   *)
IsIntercept(c) == c.name = "intercept" /\ c.const = "1"
Intact(a) ==
    \/ a.after = a.before
    \* the documented constant column
    \/ /\ a.icpt = 1
       /\ \A k \in 1..Len(a.before.cols) : a.before.cols[k].name # "intercept"
       /\ a.after.index = a.before.index
       /\ a.after.atoms = a.before.atoms
       /\ Len(a.after.cols) = Len(a.before.cols) + 1
       /\ SubSeq(a.after.cols, 1, Len(a.before.cols)) = a.before.cols
       /\ IsIntercept(a.after.cols[Len(a.after.cols)])
TouchFailing(e) == {"modified-" \o e.args[k].name \o "-by-" \o e.op
                      : k \in {j \in 1..Len(e.args) : ~Intact(e.args[j])}}

LifeFailing(e) == CASE e.kind = "life"  -> Walk(e, Start, 1) \cup RefFailing(e)
                    [] e.kind = "touch" -> TouchFailing(e)
=============================================================================
