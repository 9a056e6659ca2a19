"""Which models, drivers and trace specifications decide which property."""
PROPS = {}


def prop(pid, **k):
    PROPS[pid] = k


_A = ["TLC evaluates the specification's real arithmetic with 40 significant digits",
      "floating point results agree up to the tolerances stated in the trace specification"]

_MODEL = ("choice problems enumerated by TLC (spec/MC_Model.tla, 'src': 'tlc') and random valid long-format tables (availability, ids, panels, row order), model "
          "definitions, parameter vectors, weights and ridge by VERIF_SEED; each execution "
          "is judged against the specification's formula; non-trivial: some observation "
          "lacks an alternative or has rows out of alternative order")


def _plain(e):
    if "tab" not in e:                  # draws
        return e["nvar"] * e["nind"] == 1
    T = e["tab"]
    J = len(set(T["alt"]))
    return len(T["obs"]) == J * len(set(T["obs"])) and T["alt"] == sorted(set(T["alt"])) * len(
        set(T["obs"]))


def _model(fam):
    return [dict(module="MC_Model", cfg=["MC_Model%s.cfg" % fam, "MC_Model%s_thorough.cfg" % fam],
                 what="every table of 2 (3) observations over 3 alternatives (choice sets, row "
                      "orders, choices) with every definition of the model types concerned "
                      "(reference positions, nestings, mixing): a proper distribution, reduction "
                      "to conditional logit, independence of other observations, weights as "
                      "copies, derivatives; each problem is a scenario")]


for _p, _f in (("P08", "Logit"), ("P09", "Nest"), ("P10", "Mix"), ("P12", "All"), ("P13", "All"),
               ("P14", "All")):
    prop(_p, driver="d_model", judge="ModelTrace", rule=_MODEL, trivial=_plain, assumptions=_A,
         mc=_model(_f))

_TAB = ("all small tables / specifications enumerated by TLC (spec/MC_*.tla, 'src': 'tlc') plus "
        "random larger ones by VERIF_SEED; non-trivial: more than one observation or variable")
_LONG = dict(module="MC_Long", cfg=["MC_Long.cfg", "MC_Long_thorough.cfg"],
             what="all long tables of at most 4 (5) rows over 2 observations and 3 alternatives: "
                  "mapping and round-trip theorems, scenarios")
_LONGDUP = dict(module="MC_Long", cfg="MC_LongDup.cfg",
                what="all long tables of at most 3 rows with duplicates, any choices")
_WIDE = dict(module="MC_Wide", cfg=["MC_Wide.cfg", "MC_Wide_thorough.cfg"],
             what="all wide tables of at most 2 (3) observations, valid and malformed: "
                  "argument-order independence, one row per available pair")
_DES = dict(module="MC_Design", cfg="MC_Design.cfg",
            what="all specification entries over three alternatives with every naming order")
for _p, _mc in (("P01", [_DES]), ("P02", [_LONG]), ("P03", [_LONG]), ("P04", [_WIDE]),
                ("P05", [_LONG, _WIDE]), ("P06", [_LONGDUP, _WIDE])):
    prop(_p, driver="d_table", judge="TableTrace", mc=_mc, rule=_TAB,
         trivial=lambda e: len(set(e.get("tab", {}).get("obs", [1, 2]))) < 2)

_FIT = ("random tables, model definitions (names, reference positions, nests, mixing), start "
        "values, optimisers, ridge, weights and constraints by VERIF_SEED; each fitted model is "
        "judged against the specification; non-trivial: some observation lacks an alternative or "
        "has rows out of alternative order")
for _p in ("P16", "P17", "P19"):
    prop(_p, driver="d_fit", judge="FitTrace", rule=_FIT, trivial=_plain, assumptions=_A,
         unobserved=("success",))
prop("P18", driver="d_fit", judge="FitTrace", rule=_FIT, trivial=_plain, assumptions=_A,
     unobserved=("var", "rvar", "success"))
prop("P20", driver="d_fit", judge="FitTrace", rule=_FIT, trivial=_plain, assumptions=_A,
     observed=["calls"], unobserved=("tab", "th", "draws", "mode", "err"))

_REL = ("random tables and models by VERIF_SEED with a related second table (copies by weight, "
        "rearranged rows and renamed ids, new panel data) whose relation TLC verifies before "
        "comparing results; non-trivial: some observation lacks an alternative or has rows out "
        "of alternative order")
for _p in ("P11", "P15", "P23", "P28"):
    prop(_p, driver="d_rel", judge="RelTrace", rule=_REL, trivial=_plain, assumptions=_A,
         unobserved=("success",))

prop("P07", driver="d_def", judge="DefTrace",
     mc=[dict(module="MC_Def", cfg=["MC_Def.cfg", "MC_Def_thorough.cfg"],
              what="every model type with every fault (thorough: every pair of faults) of its "
                   "definition and fit arguments")],
     rule="concrete definitions built from the fault plans TLC enumerates, random tables, "
          "specifications, names, reference positions and nests by VERIF_SEED; TLC decides each "
          "definition's validity from its content; non-trivial: the definition has a fault",
     trivial=lambda e: not e["plan"])

_LIFE = dict(module="MC_Life", cfg=["MC_Life.cfg", "MC_Life_thorough.cfg"],
             what="the life of two models over two definitions and two fits: every transition "
                  "from every state, with a history leading there; isolation theorems")
prop("P21", driver="d_life", judge="LifeTrace", mc=[_LIFE],
     rule="histories of operations from TLC's exploration of spec/MC_Life.tla (sampled by "
          "VERIF_SEED; each closed by reading and predicting), and longer random ones, over "
          "random tables, definitions and fits; each result is compared by TLC with that of the "
          "same call on a freshly built model, computed in a process of its own; non-trivial: "
          "some model is fitted",
     trivial=lambda e: not any(x["o"]["op"] == "fit" for x in e["steps"]),
     observed=["steps"], unobserved=("o", "err"))
prop("P22", driver="d_life", judge="LifeTrace",
     rule="random sessions over random tables, definitions, fits, predictions and bootstrap "
          "calls, and table functions, by VERIF_SEED; before and after every operation "
          "everything the caller holds is recorded and compared by TLC; non-trivial: the caller "
          "holds at least three objects",
     trivial=lambda e: len(e["args"]) < 3, observed=["args"], unobserved=("name", "icpt"))

_BOOT = ("random tables, models, seeds, options, replicate tables and levels by VERIF_SEED%s; each "
         "execution is judged against the specification's samples, estimates and end points; "
         "non-trivial: %s")
prop("P24", driver="d_boot", judge="BootTrace",
     mc=[dict(module="MC_Boot", cfg=["MC_Boot.cfg", "MC_Boot_thorough.cfg"],
              what="every sample of every table of 2 (3) observations over 3 alternatives: choice "
                   "shares kept, whole choice situations, leaving one out")],
     rule=_BOOT % (", and samples enumerated by TLC (spec/MC_Boot.tla)",
                   "some observation is drawn twice"),
     trivial=lambda e: len(set((e.get("ids") or e.get("out", {}).get("ids", [[1, 1]])[0]))) == len(
         e.get("ids") or e.get("out", {}).get("ids", [[1, 1]])[0]))
prop("P25", driver="d_boot", judge="BootTrace", rule=_BOOT % ("", "a replicate is estimated"),
     trivial=lambda e: e["route"] == "given", assumptions=_A)
prop("P26", driver="d_boot", judge="BootTrace",
     mc=[dict(module="MC_Interval", cfg=["MC_Interval.cfg", "MC_Interval_thorough.cfg"],
              what="every column of at most 5 (6) replicates over 3 (4) values, four levels: end "
                   "points exist, are ordered and widen with the level")],
     rule=_BOOT % (", and columns enumerated by TLC (spec/MC_Interval.tla)", "an interval is made"),
     trivial=lambda e: e["kind"] == "refusal", assumptions=_A, unobserved=("labelled",))
prop("P27", driver="d_boot", judge="BootTrace",
     rule=_BOOT % ("", "the interval is made through refits"),
     trivial=lambda e: e["kind"] == "spread", assumptions=_A, unobserved=("labelled",))

prop("P29", driver="d_use", judge="UseTrace",
     mc=[dict(module="MC_Use", cfg=["MC_Use.cfg", "MC_Use_thorough.cfg"],
              what="every request (fit, predict, panel prediction, intervals, saving, bootstrap "
                   "operations) of every model type with every fault (thorough: every pair)")],
     rule="concrete requests built from the plans TLC enumerates, over random tables, models and "
          "arguments by VERIF_SEED; TLC decides each request's validity from its content and "
          "compares with the outcome; everything stored before and after a refusal is compared; "
          "non-trivial: the request has a fault",
     trivial=lambda e: not e["plan"], unobserved=("changed",))
