------------------------------ MODULE UseTrace ------------------------------
(* Requests to models and bootstraps (P29): refused exactly when invalid,   *)
(* and a refused request leaves every result as it was.                     *)
EXTENDS Use, Replay
UseFailing(e) ==
    LET f == Faulty(e.U)
    IN  (IF e.out.ok = 1 THEN {"answered-invalid-" \o e.U.call \o "-" \o x : x \in f}
         ELSE IF f = {} THEN {"refused-valid-" \o e.U.call} ELSE {})
        \cup (IF f # {} /\ e.out.ok = 0 /\ e.out.changed # << >>
              THEN {"refusal-changed-" \o e.out.changed[1]} ELSE {})
=============================================================================
