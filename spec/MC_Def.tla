------------------------------- MODULE MC_Def -------------------------------
(* All model types with every combination of at most MaxFaults faults: the  *)
(* plans from which the driver builds concrete definitions.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT MaxFaults

Common == {"type", "altcol", "obscol", "choicecol", "absent", "text", "nan", "inf", "bare", "group",
           "form", "deep", "plaindict", "namekeys", "nameextra", "namecount", "nameform", "nametype",
           "initshort", "initlong", "wneg", "wshort", "wlong", "wlist", "w2d", "ridgelist", "ridgetext",
           "scatter"}
Int == {"irefbig", "irefneg", "ireftype", "irefnone", "inamesshort", "inameslong"}
Own(t) == CASE t = "Asym"    -> Int \cup {"srefnone", "srefbig", "srefneg", "sreftype", "snamesshort", "snameslong"}
            [] t = "Cloglog" -> Int
            [] t \in {"Scobit", "Uneven"} -> Int \cup {"snamesshort", "snameslong"}
            [] t = "Nested Logit" -> {"nestmissing", "nestoverlap", "nestempty", "nestunknown", "nestfloat",
                                      "nesttuple", "nestkey", "nestdict", "nesttwice"}
            [] t = "Mixed Logit"  -> {"mixunknown", "mixid"}
            [] OTHER -> {}
Types == {"MNL", "Asym", "Cloglog", "Scobit", "Uneven", "Nested Logit", "Mixed Logit"}

VARIABLES type, faults
Init == type \in Types /\ faults = {}
Next == /\ Cardinality(faults) < MaxFaults
        /\ \E f \in (Common \cup Own(type)) \ faults : faults' = faults \cup {f}
        /\ UNCHANGED type
Emit == PrintT("@G " \o ToJson([type |-> type, faults |-> faults]))
(* every fault is reachable for its type *)
Bounded == Cardinality(faults) <= MaxFaults
=============================================================================
