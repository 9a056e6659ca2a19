--------------------------------- MODULE Use ---------------------------------
(* Requests users make of models and bootstraps, and which of them are      *)
(* valid.  A request U is a record                                          *)
(*  call    "predict", "panel", "fit", "confint", "pickle", "boot",         *)
(*          "interval", "loglikes", "norms", "replicates", "samples",       *)
(*          "frame"                                                         *)
(*  model   [type, fitted (1: yes), ncoef, nicpt, nshape, nnest (numbers of *)
(*            parameters; ncoef includes the spreads of a mixed logit)]     *)
(*  pl      the parameter list: [given, list (1: a list), e : sequence of   *)
(*            [kind ("none", "array", "other"), dims (shape)]]              *)
(*  cols    [alt, obs, mix, choice, vars : 1 if in the table]               *)
(*  data    1 if the data are a table or a csv file                         *)
(*  choice, long   1 if a choice column is named / long format is asked     *)
(*  draws, seed    [given, int (1: an integer), v]                          *)
(*  parts   initial values [vals, coefs, icpt, shapes]: numbers, -1: none   *)
(*  method  1 if there is such an optimiser                                 *)
(*  cpos    constrained positions (from 0), [ints (1: integers), v]         *)
(*  w       [given, flat (1: a vector), n, neg]  weights, for nrow rows     *)
(*  mnl     [obj, init, kw : 1 if given]  the companion of a bootstrap      *)
(*  nsamp   [int, v]  number of bootstrap samples                           *)
(*  n       length of the estimates handed to the bootstrap                 *)
(*  level   [num (1: a number), v (numeral)]                                *)
(*  itype   interval type, rkw  kind of replicates                          *)
(*  reps    [boot, jack : 1 if there are such replicates]                   *)
(*  names   parameters asked for; known  those of the model                 *)
(*  path    1 if the path is a string                                       *)
(*  bootid  1 if the table already has the new id column                    *)
(*  drawn, ids  observations drawn, and those of the table                  *)
EXTENDS Num, FiniteSets

RngU(s) == {s[k] : k \in 1..Len(s)}
Total(m) == m.ncoef + m.nicpt + m.nshape + m.nnest
Mixed(U) == U.model.type = "Mixed Logit"

(* ---- parameter lists ------------------------------------------------------ *)
Need(m) == << m.ncoef, m.nicpt, m.nshape, m.nnest >>
Arrays(U) == {k \in 1..4 : U.pl.e[k].kind = "array"}
ValidPL(U) ==
    U.pl.given = 1 =>
      /\ U.pl.list = 1
      /\ Len(U.pl.e) = 4
      /\ U.pl.e[1].kind = "array"
      /\ \A k \in 1..4 : U.pl.e[k].kind \in {"none", "array"}
      /\ Len(U.pl.e[1].dims) \in {1, 2}
      /\ \A k \in Arrays(U) : Len(U.pl.e[k].dims) = Len(U.pl.e[1].dims)
      /\ \A k \in Arrays(U) : U.pl.e[k].dims[1] = Need(U.model)[k]
      /\ Len(U.pl.e[1].dims) = 2 =>
           /\ \A k \in Arrays(U) : U.pl.e[k].dims[2] = U.pl.e[1].dims[2]
           \* one set of parameters at a time
           /\ U.model.type = "Nested Logit" => U.pl.e[1].dims[2] = 1
      \* the parts without which the probabilities have no meaning
      /\ U.model.nshape > 0 => 3 \in Arrays(U)
      /\ U.model.nnest > 0 => 4 \in Arrays(U)

ValidData(U) == /\ U.data = 1
                /\ U.cols.alt = 1 /\ U.cols.obs = 1 /\ U.cols.vars = 1
                /\ Mixed(U) => U.cols.mix = 1
                /\ U.long = 0 => U.choice = 1
                /\ U.choice = 1 => U.cols.choice = 1
Positive(x) == x.given = 1 /\ x.int = 1 /\ x.v > 0
ValidDraws(U) == Mixed(U) => Positive(U.draws) /\ (U.seed.given = 1 => Positive(U.seed))

(* ---- initial values ------------------------------------------------------- *)
Separate(U) == U.parts.coefs >= 0 \/ U.parts.icpt >= 0 \/ U.parts.shapes >= 0
ValidParts(U) ==
    LET p == U.parts
        m == U.model
    IN  CASE m.type \in {"MNL", "Nested Logit", "Mixed Logit"} ->
               ~Separate(U) /\ p.vals = Total(m)
          [] p.vals >= 0 -> p.vals = Total(m)
          [] OTHER -> /\ p.coefs = m.ncoef
                      /\ m.nshape > 0 => p.shapes = m.nshape
                      /\ p.icpt = (IF m.nicpt > 0 THEN m.nicpt ELSE -1)

ValidCpos(U) == U.cpos.ints = 1 /\ \A k \in 1..Len(U.cpos.v) : U.cpos.v[k] < Total(U.model)
ValidW(U) == U.w.given = 1 => U.w.flat = 1 /\ U.w.n = U.nrow /\ U.w.neg = 0

ValidLevel(U) == U.level.num = 1 /\ RLt(Zero, R(U.level.v)) /\ RLt(R(U.level.v), R("100"))
Has(U, w) == \/ w = "bootstrap" /\ U.reps.boot = 1
             \/ w = "jackknife" /\ U.reps.jack = 1

Faulty(U) ==
    LET f(b, name) == IF b THEN {} ELSE {name}
    IN  CASE U.call = "predict" ->
               f(U.model.fitted = 1 \/ U.pl.given = 1, "not-fitted")
               \cup f(ValidPL(U), "parameters") \cup f(ValidData(U), "data")
               \cup f(ValidDraws(U), "draws")
          [] U.call = "panel" ->
               f(Mixed(U), "model-type") \cup f(U.model.fitted = 1, "not-fitted")
               \cup f(ValidData(U), "data") \cup f(ValidDraws(U), "draws")
          [] U.call = "fit" ->
               f(ValidParts(U), "initial-values") \cup f(ValidDraws(U), "draws")
               \cup f(U.method = 1, "optimiser") \cup f(ValidCpos(U), "constraints")
          [] U.call = "confint" ->
               f(U.model.fitted = 1, "not-fitted")
               \cup f(RngU(U.names) \subseteq RngU(U.known), "parameter-names")
          [] U.call = "pickle" -> f(U.path = 1, "path")
          [] U.call = "boot" -> f(U.n = Total(U.model), "number-of-estimates")
          [] U.call = "interval" ->
               f(ValidLevel(U), "level")
               \cup f(U.itype \in {"pi", "bca", "abc", "all"}, "interval-type")
               \cup f(U.itype \in {"pi", "bca", "all"} => U.reps.boot = 1, "no-replicates")
               \cup f(U.itype \in {"bca", "all"} => U.reps.jack = 1, "no-jackknife")
          [] U.call \in {"loglikes", "norms"} ->
               f(U.rkw \in {"bootstrap", "jackknife"}, "kind-of-replicates")
               \cup f(U.rkw \in {"bootstrap", "jackknife"} => Has(U, U.rkw), "no-replicates")
               \cup f(U.call = "norms" => ValidW(U), "weights")
          [] U.call = "replicates" ->
               f(U.model.type # "MNL" => U.mnl.obj = 1 /\ U.mnl.init = 1 /\ U.mnl.kw = 1,
                 "no-companion")
               \cup f(U.nsamp.int = 1 /\ U.nsamp.v > 0, "number-of-samples")
               \cup f(U.seed.given = 1 => U.seed.int = 1 /\ U.seed.v >= 0, "seed")
               \cup f(ValidCpos(U), "constraints")
          [] U.call = "samples" -> f(U.seed.given = 1 => U.seed.int = 1 /\ U.seed.v >= 0, "seed")
          [] U.call = "frame" ->
               f(U.cols.obs = 1, "data") \cup f(U.bootid = 0, "new-id-column")
               \cup f(RngU(U.drawn) \subseteq RngU(U.ids), "unknown-observations")
ValidUse(U) == Faulty(U) = {}
=============================================================================
