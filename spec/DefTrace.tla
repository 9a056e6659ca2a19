------------------------------ MODULE DefTrace ------------------------------
(* Defining and fitting models with valid and invalid arguments (P07).      *)
EXTENDS Def, Replay
(* faults that no model may be created with, whatever it is used for *)
AtCreation == {"type", "specification", "names", "nests", "mixing"}
DefFailing(e) ==
    LET f == Faults(e.D)
    IN  IF e.out.ok = 1
        THEN {"accepted-invalid-" \o x : x \in f}
        ELSE IF e.at = "fit" /\ f \cap AtCreation # {}
        THEN {"created-with-invalid-" \o x : x \in f \cap AtCreation}
        ELSE IF f = {} THEN {"refused-valid-definition"} ELSE {}
=============================================================================
