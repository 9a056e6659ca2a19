------------------------------ MODULE MC_Life ------------------------------
(* Every transition of the life of two models, each preceded by a shortest  *)
(* history that leads there: the scenarios replayed against the code.       *)
EXTENDS Life, TLC, Json
CONSTANT Deep       \* distinguish states by the preceding operation too
VARIABLES s, h
vars == << s, h >>
Op(n, m, d, f) == [op |-> n, m |-> m, d |-> d, f |-> f]
Ops == {Op("create", m, d, 0) : m \in 1..2, d \in 1..2}
       \cup {Op("fit", m, 0, f) : m \in 1..2, f \in 1..2}
       \cup {Op("point", m, 0, f) : m \in 1..2, f \in 1..2}
       \cup {Op(n, m, 0, 0) : n \in Asks \cup (Free \ {"point"}) \cup {"load"}, m \in 1..2}
       \cup {Op("edit", 1, 0, 0)}
Init == s = Start /\ h = << >>
Next == \E o \in Ops :
          /\ Possible(s, o)
          /\ s' = After(s, o)
          /\ h' = Append(h, o)
          /\ PrintT("@G " \o ToJson(h'))
View == << s, IF Deep /\ h # << >> THEN h[Len(h)] ELSE 0 >>

(* ---- theorems ------------------------------------------------------------ *)
\* asking changes nothing, and another model's operations do not touch a model
Isolated == [][ \A m \in 1..2 :
                  LET o == h'[Len(h')]
                  IN  (s'.mod[m] # s.mod[m] =>
                        /\ o.m = m /\ o.op \in {"create", "fit", "load"})
                      /\ (s'.file # s.file => o.op = "save") ]_vars
\* a fit's result does not depend on an earlier fit
Replaced == [][ LET o == h'[Len(h')]
                IN  o.op = "fit" => s'.mod[o.m] = [d |-> s.mod[o.m].d, f |-> o.f] ]_vars
\* only the caller changes his data
OnlyTheCaller == [][ s'.data # s.data => h'[Len(h')].op = "edit" ]_vars
FileIsAModel == s.file.d = 0 => s.file = None
=============================================================================
