"""P07: valid and invalid definitions."""
from common import *                                          # noqa
from d_table import readgen
TYPEOF = {v: k for k, v in LIBTYPE.items()}


def make(rng, libtype, faults):
    t = TYPEOF[libtype]
    J = rng.randint(3, 4)
    alts = rand_alts(rng, J)
    T = rand_table(rng, nobs=max(5, J), alts=alts, ncol=3, panel=t == "Mixed",
                   avail=rng.choice([.7, 1.0]))
    while True:
        M = rand_model(rng, T, t, maxcoef=5)
        if {"bare", "group", "deep"} & faults and not any(
                isinstance(s["e"], list) for s in M["spec"]):
            continue
        break
    if {"namekeys", "nameextra", "namecount", "nameform", "nametype"} & faults:
        M["named"] = 1
    if any(f.startswith(("iref", "iname")) for f in faults):
        M["iref"] = max(M["iref"], 0)
    n = len(T["obs"])
    df = dataframe(T)
    kw = model_kwargs(T, M)
    if "intercept_names" in kw and rng.random() < .4 and not any(
            f.startswith("iname") or f in ("irefnone", "ireftype") for f in faults):
        del kw["intercept_names"]
    if "shape_names" in kw and rng.random() < .4 and not any(
            f.startswith("sname") for f in faults):
        del kw["shape_names"]
    spec = spec_dict(M)
    if rng.random() < .3:
        spec["intercept"] = [alts[0], alts[1:3]] if rng.random() < .5 else [alts[1]]
        if "names" in kw:
            kw["names"]["intercept"] = ["ic%d" % k for k in range(len(spec["intercept"]))]
    mt = libtype
    a = dict(alt_id_col="alt_id", obs_id_col="obs_id", choice_col="choice")
    var = rng.choice([v for v in spec if v != "intercept"])
    listed = [v for v in spec if isinstance(spec[v], list)]
    lv = rng.choice(listed) if listed else None
    pos = lambda: len(df) // 2                                 # noqa
    bad = max(alts) + rng.randint(1, 5)
    ninit = nparam(T, M) + (len(spec["intercept"]) if "intercept" in spec else 0)
    weights, ridge = None, 3.7
    wkind = dict(given=0, flat=1, n=n, neg=0)
    if rng.random() < .3:
        weights = np.array([float(v) for v in unit_weights(rng, T, M, "frac")])
        wkind["given"] = 1
    scalar = 1
    if rng.random() < .3:
        ridge = 4
    kinds = {}
    for f in sorted(faults):
        if f == "type":
            mt = rng.choice(["mnl", "Nested", "Probit", "MNL ", "Mixed"])
        elif f == "altcol":
            a["alt_id_col"] = "nope"
        elif f == "obscol":
            a["obs_id_col"] = "nope"
        elif f == "choicecol":
            a["choice_col"] = "nope"
        elif f == "absent":
            df = df.drop(columns=[var])
        elif f == "text":
            if var in df.columns:
                df[var] = df[var].astype(str)
                kinds[var] = "text"
        elif f in ("nan", "inf"):
            if var in df.columns and var not in kinds:
                c = df[var].values.astype(float)
                c[rng.randrange(n)] = {"nan": np.nan, "inf": rng.choice([np.inf, -np.inf])}[f]
                if f == "inf" and rng.random() < .5:       # of either sign
                    c[rng.sample(range(n), 2)] = [np.inf, -np.inf]
                df[var] = c
                kinds[var] = f
        elif f == "bare" and lv:
            spec[lv] = list(spec[lv]) + [bad]
            if "names" in kw and isinstance(kw["names"].get(lv), list):
                kw["names"][lv] = kw["names"][lv] + ["extra"]
            ninit += 1
        elif f == "group" and lv:
            spec[lv] = list(spec[lv]) + [[alts[0], bad]]
            if "names" in kw and isinstance(kw["names"].get(lv), list):
                kw["names"][lv] = kw["names"][lv] + ["extra2"]
            ninit += 1
        elif f == "form":
            spec[var] = rng.choice(["all", "same", ("all_same",)])
        elif f == "deep" and lv:
            spec[lv] = [[[alts[0]], alts[1]]]
        elif f == "plaindict":
            spec = dict(spec)
        elif f == "namekeys":
            kw["names"].pop(rng.choice(list(kw["names"])))
        elif f == "nameextra":
            kw["names"]["zz"] = "zz"
        elif f in ("namecount", "nameform"):
            v = rng.choice(list(kw["names"]))
            o = kw["names"][v]
            if isinstance(o, list):
                kw["names"][v] = (o + ["one more"] if rng.random() < .5 or len(o) == 1
                                  else o[:-1]) if f == "namecount" else "just one"
            else:
                kw["names"][v] = [o]
        elif f == "nametype":
            # (whether those of "all_diff" must be strings is left open)
            v = rng.choice([v for v in kw["names"] if spec.get(v) != "all_diff"] or [None])
            o = kw["names"].get(v)
            if v is None:
                pass
            elif isinstance(o, list):
                o = list(o)
                o[rng.randrange(len(o))] = rng.choice([3, None, 2.5])
                kw["names"][v] = o
            else:
                kw["names"][v] = 7
        elif f == "irefbig":
            kw["intercept_ref_pos"] = J + rng.randint(0, 2)
        elif f == "irefneg":
            kw["intercept_ref_pos"] = -rng.randint(1, J)
        elif f == "ireftype":
            kw["intercept_ref_pos"] = "1"
        elif f == "irefnone":
            kw["intercept_ref_pos"] = None
        elif f == "inamesshort":
            kw["intercept_names"] = kw["intercept_names"][:-1]
        elif f == "inameslong":
            kw["intercept_names"] = kw["intercept_names"] + ["more"]
        elif f == "srefnone":
            kw["shape_ref_pos"] = None
        elif f == "srefbig":
            kw["shape_ref_pos"] = J + rng.randint(0, 2)
        elif f == "srefneg":
            kw["shape_ref_pos"] = -rng.randint(1, J)
        elif f == "sreftype":
            kw["shape_ref_pos"] = "1"
        elif f == "snamesshort":
            kw["shape_names"] = kw["shape_names"][:-1]
        elif f == "snameslong":
            kw["shape_names"] = kw["shape_names"] + ["more"]
        elif f.startswith("nest"):
            ns = kw["nest_spec"]
            k0 = rng.choice(list(ns))
            if f == "nestmissing":
                k1 = max(ns, key=lambda k: len(ns[k]) if isinstance(ns[k], list) else -1)
                if isinstance(ns[k1], list) and ns[k1]:
                    ns[k1] = ns[k1][:-1] if len(ns[k1]) > 1 else ns[k1]
                    if len(ns[k1]) == 1 and len(ns) > 1 and sum(map(len, ns.values())) == J:
                        ns.pop(k1)
                        ninit -= 1
            elif f == "nestoverlap":
                ns["again"] = [rng.choice(alts)]
                ninit += 1
            elif f == "nestempty":
                ns["empty"] = []
                ninit += 1
            elif f == "nestunknown":
                ns[k0] = list(ns[k0]) + [bad]
            elif f == "nestfloat":
                ns[k0] = [float(x) + .0 for x in ns[k0]]
            elif f == "nesttuple":
                ns[k0] = tuple(ns[k0])
            elif f == "nestkey":
                kw["nest_spec"] = OD((i, v) for i, v in enumerate(ns.values()))
            elif f == "nestdict":
                kw["nest_spec"] = dict(ns)
            elif f == "nesttwice":
                ns[k0] = list(ns[k0]) + [list(ns[k0])[0]] if len(ns[k0]) else list(ns[k0])
        elif f == "mixunknown":
            kw["mixing_vars"] = kw["mixing_vars"][:-1] + ["nobody"]
        elif f == "mixid":
            kw["mixing_id_col"] = "nope"
        elif f == "initshort":
            ninit -= 1
        elif f == "initlong":
            ninit += rng.randint(1, 2)
        elif f.startswith("w"):
            weights = np.ones(n)
            wkind = dict(given=1, flat=1, n=n, neg=0)
            if f == "wneg":
                weights[rng.randrange(n)] = -.5
                wkind["neg"] = 1
            elif f == "wshort":
                weights = np.ones(n - 1)
                wkind["n"] = n - 1
            elif f == "wlong":
                weights = np.ones(n + 2)
                wkind["n"] = n + 2
            elif f == "wlist":
                weights = [1.0] * n
                wkind["flat"] = 0
            else:
                weights = np.ones((n, 1))
                wkind["flat"] = 0
        elif f == "ridgelist":
            ridge, scalar = [1.0], 0
        elif f == "ridgetext":
            ridge, scalar = "1.0", 0
        elif f == "scatter":
            o = list(dict.fromkeys(T["obs"]))
            order = [r for r in range(n) if T["obs"][r] != o[0]]
            mine = [r for r in range(n) if T["obs"][r] == o[0]]
            order = mine[:1] + order + mine[1:]
            if wkind["given"] and wkind["flat"] and wkind["n"] == n:
                weights = weights[order]
            df = df.iloc[order].reset_index(drop=True)
    # -------- the definition as data
    entries = []
    for v, e in spec.items():
        form = e if isinstance(e, str) else ("list" if isinstance(e, list) else "other")
        items = [dict(one=0 if isinstance(i, list) else 1,
                      alts=[x for x in (i if isinstance(i, list) else [i])
                            if isinstance(x, int)])
                 for i in e] if isinstance(e, list) else []
        deep = int(isinstance(e, list) and any(
            isinstance(i, list) and any(isinstance(x, list) for x in i) for i in e))
        entries.append(dict(var=v, form=form, items=items, deep=deep))
    nm = kw.get("names")
    names = dict(given=int(nm is not None), e=[])
    for v, o in (nm or {}).items():
        kind = "str" if isinstance(o, str) else "list" if isinstance(o, list) else "other"
        lst = list(o) if kind == "list" else [o]
        names["e"].append(dict(var=v, kind=kind, n=[str(x) for x in lst],
                               strs=int(all(isinstance(x, str) for x in lst))))
    ref = lambda r: dict(given=int(r is not None), int=int(isinstance(r, int)),   # noqa
                         v=r if isinstance(r, int) else 0)
    cnt = lambda x: dict(given=int(x is not None), n=len(x or []))               # noqa
    ns = kw.get("nest_spec")
    nests = dict(given=int(ns is not None), od=int(isinstance(ns, OD)), e=[
        dict(key=int(isinstance(k, str)), list=int(isinstance(v, list)),
             ints=int(all(isinstance(x, int) for x in v)), alts=[int(x) for x in v])
        for k, v in (ns or {}).items()])
    D = dict(type=mt,
             tabcols=dict(alt=int(a["alt_id_col"] in df.columns),
                          obs=int(a["obs_id_col"] in df.columns),
                          choice=int(a["choice_col"] in df.columns),
                          mixid=int(kw.get("mixing_id_col") in df.columns)),
             alt=[int(x) for x in df["alt_id"]], obs=[int(x) for x in df["obs_id"]],
             cols=[dict(name=c, kind=kinds.get(c, "num")) for c in df.columns],
             spec=dict(od=int(isinstance(spec, OD)), e=entries), names=names,
             iref=ref(kw.get("intercept_ref_pos")), sref=ref(kw.get("shape_ref_pos")),
             inames=cnt(kw.get("intercept_names")), snames=cnt(kw.get("shape_names")),
             nests=nests, mix=dict(given=int("mixing_vars" in kw), e=kw.get("mixing_vars", [])),
             ninit=ninit, w=wkind, ridge=dict(given=1, scalar=scalar))
    return dict(D=D, df=df, spec=spec, kw=kw, a=a, mt=mt, ninit=ninit, weights=weights,
                ridge=ridge, mixed=t == "Mixed", plan=sorted(faults))


def run(sc):
    at = ["create"]

    def op():
        m = pylogit.create_choice_model(sc["df"], specification=sc["spec"],
                                        model_type=sc["mt"], **sc["a"], **sc["kw"])
        at[0] = "fit"
        kw = dict(num_draws=3, seed=4) if sc["mixed"] else {}
        m.fit_mle(np.full(max(sc["ninit"], 0), .1), maxiter=0, print_res=False,
                  ridge=sc["ridge"], weights=sc["weights"], **kw)
        return m.params
    r, err = guarded(op)
    if err.startswith("LinAlgError"):
        err = ""                       # the definition was accepted and evaluated
    return [dict(kind="define", D=sc["D"], plan=sc["plan"], src="tlc", note=err[:120],
                 at=at[0], out=dict(ok=0 if err else 1))]


def scenarios(prop, tier, seed, gen):
    reps = (2, 2) if tier == "thorough" else (3, 12)
    for k, g in enumerate(readgen(gen, "MC_Def")):
        for j in range(reps[0] if g["faults"] else reps[1]):
            rng = random.Random("%s/%s/%s/%s/%d" % (prop, seed, g["type"],
                                                    ",".join(sorted(g["faults"])), j))
            yield "P07-%s-%s-%d" % (g["type"].split()[0], "+".join(sorted(g["faults"])) or "ok", j), (
                lambda rng=rng, g=g: make(rng, g["type"], set(g["faults"])))
