------------------------------- MODULE Life -------------------------------
(* The life of models: several models are created from definitions, fitted, *)
(* asked for results, predictions and bootstrap quantities, saved and       *)
(* reloaded, in any order.  A model's state is its definition d and the     *)
(* fit f it holds (0: none); nothing else may influence any result.         *)
(* The caller also holds a table of new data to predict for, which he may   *)
(* edit in place between calls: a prediction is that of its present values. *)
EXTENDS Naturals, Sequences, FiniteSets

None == [d |-> 0, f |-> 0]
Start == [mod |-> << None, None >>, file |-> None, data |-> 1]

(* operations that need the results of a fit, and leave everything alone    *)
Asks == {"read", "predict", "predictother", "confint", "panel",
         "boot", "jack", "abc", "norms",
         \* all intervals of a bootstrap object kept as long as the fit is
         "ci80", "ci95"}
(* operations on the new data *)
OnNew == {"predictother", "predictgiven", "panel"}
(* operations that return something without a stored fit *)
Free == {"point", "save", "predictgiven", "print"}

Possible(s, o) == CASE o.op = "create" -> TRUE
                    [] o.op = "edit"   -> TRUE
                    [] o.op = "load"   -> s.file.d # 0
                    [] OTHER           -> s.mod[o.m].d # 0

After(s, o) ==
    CASE o.op = "create" -> [s EXCEPT !.mod[o.m] = [d |-> o.d, f |-> 0]]
      [] o.op = "fit"    -> [s EXCEPT !.mod[o.m].f = o.f]
      [] o.op = "save"   -> [s EXCEPT !.file = s.mod[o.m]]
      [] o.op = "load"   -> [s EXCEPT !.mod[o.m] = s.file]
      [] o.op = "edit"   -> [s EXCEPT !.data = 3 - s.data]
      [] OTHER           -> s

(* what the result of o in state s may depend on *)
Key(s, o) ==
    [ op |-> o.op,
      v  |-> IF o.op \in OnNew THEN s.data ELSE 0,
      d  |-> IF o.op = "create" THEN o.d ELSE IF o.op = "load" THEN s.file.d ELSE s.mod[o.m].d,
      f  |-> IF o.op \in {"create", "save", "load"} THEN 0
             ELSE IF o.op \in {"fit", "point"} THEN o.f ELSE s.mod[o.m].f ]
Refused(s, o) == o.op \in Asks /\ s.mod[o.m].f = 0
=============================================================================
