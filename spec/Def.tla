--------------------------------- MODULE Def ---------------------------------
(* Definitions of models and the arguments of a fit, as users give them,    *)
(* and which of them are valid.  D is a record                              *)
(*  type    model type as given                                             *)
(*  tabcols [alt, obs, choice, mixid : 1 if the named column exists]        *)
(*  alt, obs  the table's id columns                                        *)
(*  cols    sequence of [name, kind]; kind "num", "text", "nan", "inf"      *)
(*  spec    [od : 1 if an ordered dict, e : sequence of                     *)
(*            [var, form, items, deep]]  form as in Table, or "other";      *)
(*            deep = 1 if some group holds a list                           *)
(*  names   [given, e : sequence of [var, kind ("str","list","other"),      *)
(*            n (the sequence of names), strs (1: all are strings)]]        *)
(*  iref, sref  [given, int (1: an integer), v]                             *)
(*  inames, snames  [given, n]                                              *)
(*  nests   [given, od, e : sequence of [key (1: string), list (1: list),   *)
(*            ints (1: all integers), alts]]                                *)
(*  mix     [given, e : names of mixing variables]                          *)
(*  ninit   number of initial values                                        *)
(*  w       [given, flat (1: a vector), n, neg (1: some are negative)]      *)
(*  ridge   [given, scalar]                                                 *)
EXTENDS Table

ModelTypes == {"MNL", "Asym", "Cloglog", "Scobit", "Uneven", "Nested Logit", "Mixed Logit"}
Shaped == {"Asym", "Scobit", "Uneven"}
WithIntercepts == {"Asym", "Cloglog", "Scobit", "Uneven"}
AltSet(D) == Rng(D.alt)
JOf(D) == Cardinality(AltSet(D))

ValidType(D) == D.type \in ModelTypes
ValidColumns(D) == D.tabcols.alt = 1 /\ D.tabcols.obs = 1 /\ D.tabcols.choice = 1
                   /\ (D.type = "Mixed Logit" => D.tabcols.mixid = 1)
ColKind(D, v) == IF v = "intercept" /\ ~\E k \in 1..Len(D.cols) : D.cols[k].name = v THEN "num"
                 ELSE IF \E k \in 1..Len(D.cols) : D.cols[k].name = v
                 THEN D.cols[Pos(D.cols, LAMBDA c : c.name = v)].kind ELSE "absent"
ValidEntry(D, e) ==
    /\ ColKind(D, e.var) = "num"
    /\ e.form \in {"all_same", "all_diff", "list"}
    /\ e.deep = 0
    /\ e.form = "list" => \A j \in 1..Len(e.items) : Rng(e.items[j].alts) \subseteq AltSet(D)
ValidSpec(D) == D.spec.od = 1 /\ \A k \in 1..Len(D.spec.e) : ValidEntry(D, D.spec.e[k])

NGroups(D, e) == Len(EntryGroups(e, Sorted(AltSet(D))))
ValidNames(D) ==
    D.names.given = 1 =>
      /\ {D.names.e[k].var : k \in 1..Len(D.names.e)} = {D.spec.e[k].var : k \in 1..Len(D.spec.e)}
      /\ \A k \in 1..Len(D.names.e) : \A j \in 1..Len(D.spec.e) :
           D.names.e[k].var = D.spec.e[j].var =>
             IF D.spec.e[j].form = "all_same" THEN D.names.e[k].kind = "str"
             ELSE /\ D.names.e[k].kind = "list"
                  /\ D.names.e[k].strs = 1
                  /\ Len(D.names.e[k].n) = NGroups(D, D.spec.e[j])
ValidRef(D, r) == r.given = 1 => r.int = 1 /\ 0 <= r.v /\ r.v < JOf(D)
ValidIntercepts(D) ==
    D.type \in WithIntercepts =>
      /\ ValidRef(D, D.iref)
      /\ D.inames.given = 1 => D.iref.given = 1 /\ D.inames.n = JOf(D) - 1
ValidShapes(D) ==
    /\ D.type = "Asym" => D.sref.given = 1 /\ ValidRef(D, D.sref)
    /\ D.type \in Shaped /\ D.snames.given = 1 =>
         D.snames.n = (IF D.type = "Asym" THEN JOf(D) - 1 ELSE JOf(D))
ValidNests(D) ==
    D.type = "Nested Logit" =>
      /\ D.nests.given = 1 /\ D.nests.od = 1
      /\ \A k \in 1..Len(D.nests.e) :
           /\ D.nests.e[k].key = 1 /\ D.nests.e[k].list = 1 /\ D.nests.e[k].ints = 1
           /\ D.nests.e[k].alts # << >>
           /\ Cardinality(Rng(D.nests.e[k].alts)) = Len(D.nests.e[k].alts)
      /\ \A j, k \in 1..Len(D.nests.e) :
           j # k => Rng(D.nests.e[j].alts) \cap Rng(D.nests.e[k].alts) = {}
      /\ UNION {Rng(D.nests.e[k].alts) : k \in 1..Len(D.nests.e)} = AltSet(D)
(* labels of the index coefficients, assuming the parts above are valid *)
DLabels(D) == LabelsOf(D.alt, D.spec.e, IF D.names.given = 1 THEN D.names.e ELSE << >>)
ValidMixing(D) == D.type = "Mixed Logit" => Rng(D.mix.e) \subseteq Rng(DLabels(D))

NCoef(D) == LET n == [k \in 1..Len(D.spec.e) |-> NGroups(D, D.spec.e[k])]
                s[k \in 0..Len(n)] == IF k = 0 THEN 0 ELSE s[k-1] + n[k]
            IN  s[Len(n)]
NeededInit(D) ==
    NCoef(D)
    + (IF D.type = "Nested Logit" THEN Len(D.nests.e) ELSE 0)
    + (CASE D.type = "Asym" -> JOf(D) - 1
         [] D.type \in {"Scobit", "Uneven"} -> JOf(D)
         [] OTHER -> 0)
    + (IF D.type \in WithIntercepts /\ D.iref.given = 1 THEN JOf(D) - 1 ELSE 0)
    + (IF D.type = "Mixed Logit" THEN Len(D.mix.e) ELSE 0)
ValidInit(D) == D.ninit = NeededInit(D)
ValidWeights(D) == D.w.given = 1 => D.w.flat = 1 /\ D.w.n = Len(D.alt) /\ D.w.neg = 0
ValidRidge(D) == D.ridge.given = 1 => D.ridge.scalar = 1

(* the faults of a definition; parts that only make sense when others are   *)
(* sound are judged only then                                               *)
Faults(D) ==
    LET f(b, name) == IF b THEN {} ELSE {name}
        basic == f(ValidType(D), "type") \cup f(ValidColumns(D), "columns")
                 \cup f(ValidSpec(D), "specification")
                 \cup f(Contiguous(D.obs), "contiguity")
                 \cup f(ValidWeights(D), "weights") \cup f(ValidRidge(D), "ridge")
                 \cup f(ValidIntercepts(D), "intercepts") \cup f(ValidShapes(D), "shapes")
                 \cup f(ValidNests(D), "nests")
    IN  IF basic # {} THEN basic
        ELSE IF ~ValidNames(D) THEN {"names"}
        ELSE f(ValidMixing(D), "mixing") \cup f(ValidInit(D), "initial-values")
ValidDef(D) == Faults(D) = {}
=============================================================================
