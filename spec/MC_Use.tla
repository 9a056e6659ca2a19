------------------------------- MODULE MC_Use -------------------------------
(* Every request of every model type with at most MaxFaults faults: the     *)
(* plans from which the driver builds concrete requests.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT MaxFaults

Types == {"MNL", "Asym", "Cloglog", "Scobit", "Uneven", "Nested Logit", "Mixed Logit"}
Shaped == {"Asym", "Scobit", "Uneven"}
Calls(t) == {"predict", "fit", "confint", "pickle", "panel"}
            \cup (IF t = "Mixed Logit" THEN {}
                  ELSE {"boot", "interval", "loglikes", "norms", "replicates"})
            \cup (IF t = "MNL" THEN {"samples", "frame"} ELSE {})
Data == {"data", "altcol", "obscol", "varcol", "choicecol", "nochoice"}
Draws == {"draws-none", "draws-zero", "draws-neg", "draws-float", "seed-float", "seed-zero"}
Faults(c, t) ==
    CASE c = "predict" ->
           Data \cup {"unfitted", "pl-tuple", "pl-three", "pl-five", "pl-first-none", "pl-first-list",
                      "pl-part-list", "pl-dims", "pl-3d", "pl-rows0", "pl-rows1", "pl-rows2",
                      "pl-rows3"}
           \cup (IF t \in Shaped THEN {"pl-columns", "pl-noshape"} ELSE {})
           \cup (IF t = "Nested Logit" THEN {"pl-nonest", "pl-several"} ELSE {})
           \cup (IF t = "Mixed Logit" THEN Draws \cup {"mixcol"} ELSE {})
      [] c = "panel" -> IF t = "Mixed Logit" THEN Data \cup Draws \cup {"mixcol", "unfitted"}
                        ELSE {"always"}
      [] c = "fit" -> {"vals-short", "vals-long", "method", "cpos-big", "cpos-text"}
                      \cup (IF t \in {"MNL", "Nested Logit", "Mixed Logit"} THEN {"parts"}
                            ELSE {"coefs-short", "coefs-long", "no-coefs", "icpt-short", "icpt-long"})
                      \cup (IF t \in Shaped THEN {"shapes-short", "shapes-long", "no-shapes"} ELSE {})
                      \cup (IF t = "Mixed Logit" THEN Draws ELSE {})
      [] c = "confint" -> {"unfitted", "unknown-name"}
      [] c = "pickle" -> {"path"}
      [] c = "boot" -> {"n-short", "n-long"}
      [] c = "interval" -> {"level-zero", "level-neg", "level-hundred", "level-above",
                            "level-text", "level-none", "itype", "no-boot", "no-jack"}
      [] c \in {"loglikes", "norms"} ->
           {"rkw", "no-reps"}
           \cup (IF c = "norms" THEN {"w-short", "w-neg", "w-list"} ELSE {})
      [] c = "replicates" ->
           {"nsamp-neg", "nsamp-float", "seed-float", "seed-neg", "cpos-big"}
           \cup (IF t = "MNL" THEN {} ELSE {"no-mnl", "no-mnl-init", "no-mnl-kw"})
      [] c = "samples" -> {"seed-float", "seed-neg", "seed-text"}
      [] c = "frame" -> {"obscol", "bootid", "unknown-obs"}

VARIABLES type, call, faults
Init == type \in Types /\ call \in Calls(type) /\ faults = {}
Next == /\ Cardinality(faults) < MaxFaults
        /\ \E f \in Faults(call, type) \ faults : faults' = faults \cup {f}
        /\ UNCHANGED << type, call >>
Emit == PrintT("@G " \o ToJson([type |-> type, call |-> call, faults |-> faults]))
Bounded == Cardinality(faults) <= MaxFaults
=============================================================================
