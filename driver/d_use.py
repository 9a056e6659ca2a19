"""P29: valid and invalid requests to models and bootstraps."""
import contextlib
import io

from common import *                                          # noqa
from d_table import readgen
from d_life import RESULTS, flat
from pylogit import bootstrap_sampler as bs
from pylogit.bootstrap import Boot
TYPEOF = {v: k for k, v in LIBTYPE.items()}
KEPT = ("bootstrap_replicates", "jackknife_replicates", "percentile_interval", "bca_interval",
        "abc_interval", "all_intervals", "mle_params")


def state(m, b):
    """everything stored in a model and a bootstrap object"""
    out = []
    for a in RESULTS:
        flat(a, getattr(m, a, None), out)
    for a in KEPT if b is not None else ():
        flat(a, getattr(b, a, None), out)
    return out


def run(sc):
    with contextlib.redirect_stdout(io.StringIO()):
        return _run(sc)


def _run(sc):
    rng = random.Random(sc["salt"])
    t, F, call = TYPEOF[sc["type"]], set(sc["faults"]), sc["call"]
    T, M = sc["tab"], sc["M"]
    J = len(set(T["alt"]))
    nn, ns, ni, nb, nm = counts(M, J)
    total = nn + ns + ni + nb + nm
    fitted = sc["fitted"] and "unfitted" not in F
    m = build(T, M)
    th = theta(sc["th"])
    draws = dict(num_draws=3, seed=7) if t == "Mixed" else {}
    if fitted:
        _, e = guarded(m.fit_mle, th, maxiter=1, ridge=2.0, print_res=False, **draws)
        if e:
            return []
    none = dict(given=0, int=0, v=0)
    U = dict(call=call, model=dict(type=sc["type"], fitted=int(fitted), ncoef=nb + nm, nicpt=ni,
                                   nshape=ns, nnest=nn),
             pl=dict(given=0, list=0, e=[]), cols=dict(alt=1, obs=1, mix=1, choice=1, vars=1),
             choice=0, long=1, draws=none, seed=none,
             parts=dict(vals=-1, coefs=-1, icpt=-1, shapes=-1), method=1, n=0,
             level=dict(num=1, v="90"), itype="pi", rkw="bootstrap", reps=dict(boot=0, jack=0),
             data=1, cpos=dict(ints=1, v=[]), w=dict(given=0, flat=1, n=0, neg=0),
             nrow=len(T["obs"]), mnl=dict(obj=0, init=0, kw=0), nsamp=dict(int=1, v=1),
             names=[], known=[], path=1, bootid=0, drawn=[], ids=[])
    b = None
    if call in ("predict", "panel"):
        f = request_predict(rng, call, m, T, M, F, U, sc, fitted)
    elif call == "fit":
        f = request_fit(rng, m, T, M, F, U, sc)
    elif call == "confint":
        names = list(m.params.index) if fitted else []
        ask = rng.sample(names, rng.randint(1, len(names))) if names and rng.random() < .8 else None
        if "unknown-name" in F:
            ask = (ask or []) + ["nobody"]
            rng.shuffle(ask)
        U["names"], U["known"] = ask or [], names
        f = lambda: m.conf_int(alpha=.1, coefs=ask, return_df=rng.random() < .5)   # noqa
    elif call == "pickle":
        path = os.path.abspath("use-%d%s" % (os.getpid(), rng.choice(["", ".pkl", ".x"])))
        if "path" in F:
            path = rng.choice([None, 3, path.encode(), ["a.pkl"]])
        U["path"] = int(isinstance(path, str))
        f = lambda: m.to_pickle(path)                         # noqa
    elif call == "boot":
        n = total + (1 if "n-long" in F else 0) - (1 if "n-short" in F else 0)
        U["n"] = n
        f = lambda: Boot(m, np.linspace(0, 1, n))             # noqa
    elif call in ("interval", "loglikes", "norms"):
        b = Boot(m, th)
        f = request_boot(rng, call, b, F, U, th, m)
    elif call == "replicates":
        b = Boot(m, th)
        f = request_replicates(rng, b, T, M, F, U, th)
    else:
        f = request_sample(rng, call, T, F, U)
    before = state(m, b)
    r, err = guarded(f)
    after = state(m, b)
    changed = []
    if err:
        x = dict((k, v) for k, v in before)
        changed = sorted({k.split("[")[0].split(".")[0] for k, v in after if x.get(k) != v} |
                         {k for k in x if k not in dict((k, v) for k, v in after)})
    # a singular information matrix is no matter of the request's validity
    if err.startswith("LinAlgError"):
        return []
    return [dict(kind="use", U=U, plan=sorted(F), route="%s/%s" % (call, t), src="tlc",
                 note=err[:160], out=dict(ok=0 if err else 1, changed=changed))]


def set_draws(rng, t, F, U):
    if t != "Mixed":
        return {}
    n, s = rng.randint(1, 4), rng.randint(1, 10 ** 6)
    for f in sorted(F):
        if f == "draws-none":
            n = None
        elif f == "draws-zero":
            n = 0
        elif f == "draws-neg":
            n = -rng.randint(1, 3)
        elif f == "draws-float":
            n = 3.0
        elif f == "seed-float":
            s = 5.0
        elif f == "seed-zero":
            s = 0
    d = lambda x: dict(given=int(x is not None), int=int(isinstance(x, int)),      # noqa
                       v=int(x or 0))
    U["draws"], U["seed"] = d(n), d(s)
    return dict(num_draws=n, seed=s)


def request_predict(rng, call, m, T, M, F, U, sc, fitted):
    t = M["type"]
    df = dataframe(sc["tab2"])
    kw = dict(return_long_probs=True)
    if rng.random() < .6 or "choicecol" in F:
        kw["choice_col"] = "choice"
        kw["return_long_probs"] = rng.random() < .5
    if "nochoice" in F:
        kw["choice_col"], kw["return_long_probs"] = None, False
    for f, c in (("altcol", "alt_id"), ("obscol", "obs_id"), ("choicecol", "choice"),
                 ("mixcol", "ind_id"), ("varcol", "x%d" % M["spec"][0]["v"])):
        if f in F and c in df.columns:
            df = df.drop(columns=[c])
    U["cols"] = dict(alt=int("alt_id" in df), obs=int("obs_id" in df), mix=int("ind_id" in df),
                     choice=int("choice" in df),
                     vars=int(all("x%d" % s["v"] in df for s in M["spec"])))
    if "data" in F:
        df = rng.choice([None, 3, df.values, "nowhere.csv", "data.txt", df.to_dict()])
        U["data"] = 0
    U["choice"] = int(kw.get("choice_col") is not None)
    U["long"] = int(kw["return_long_probs"])
    if call == "panel":
        if t != "Mixed":
            U["choice"], U["long"] = 0, 1
            return lambda: m.panel_predict(df, 3)
        d = set_draws(rng, t, F, U)
        return lambda: m.panel_predict(df, d.pop("num_draws"), **dict(kw, **d))
    kw.update(set_draws(rng, t, F, U))
    plf = {f for f in F if f.startswith("pl-")}
    if plf or rng.random() < .4 and (fitted or t != "Mixed"):
        # (the spreads become coefficients of a mixed logit with its first fit)
        pl = param_list(T, M, theta(sc["th"]))
        two = t != "Mixed" and rng.random() < .4 or bool({"pl-columns", "pl-several"} & plf)
        if two:
            k = 1 if t == "Nested" else rng.randint(2 if "pl-columns" in plf else 1, 3)
            if "pl-several" in plf:
                k = 2
            pl = [None if x is None else np.column_stack([x + .1 * j for j in range(k)])
                  for x in pl]
        parts = [k for k in (1, 2, 3) if pl[k] is not None]
        for f in sorted(plf):
            if f.startswith("pl-rows"):
                k = int(f[-1])
                if not isinstance(pl[k], np.ndarray):
                    pl[k] = np.zeros((2,) + pl[0].shape[1:] if isinstance(
                        pl[0], np.ndarray) else 2)
                else:
                    pl[k] = np.concatenate([pl[k], pl[k][:1]]) if rng.random() < .5 or \
                        len(pl[k]) == 1 else pl[k][:-1]
            elif f == "pl-first-none":
                pl[0] = None
            elif f == "pl-first-list":
                pl[0] = list(pl[0]) if pl[0] is not None else [1.0]
            elif f == "pl-part-list":
                k = rng.choice(parts) if parts else 1
                pl[k] = [float(v) for v in np.ravel(pl[k])] if pl[k] is not None else [.1]
            elif f == "pl-dims":
                k = rng.choice(parts or [0])
                if k and isinstance(pl[k], np.ndarray):
                    pl[k] = pl[k][:, None] if pl[k].ndim == 1 else pl[k][:, 0]
                elif not k and isinstance(pl[0], np.ndarray):
                    pl[1] = np.zeros((2, 1)) if pl[0].ndim == 1 else np.zeros(2)
            elif f == "pl-3d":
                pl = [x[..., None, None] if isinstance(x, np.ndarray) and x.ndim == 1 else
                      x[..., None] if isinstance(x, np.ndarray) else x for x in pl]
            elif f == "pl-columns":
                # Too many columns, or (where there are several) a single one: an
                # array of one column would quietly serve for all of them.
                k = rng.choice([k for k in parts or [2]])
                if isinstance(pl[k], np.ndarray) and pl[k].ndim == 2:
                    pl[k] = (pl[k][:, :1] if pl[k].shape[1] > 1 and rng.random() < .6
                             else np.column_stack([pl[k], pl[k][:, 0]]))
            elif f == "pl-noshape":
                pl[2] = None
            elif f == "pl-nonest":
                pl[3] = None
        if "pl-three" in plf:
            pl = pl[:3]
        if "pl-five" in plf:
            pl = pl + [None]
        if "pl-tuple" in plf:
            pl = tuple(pl)
        U["pl"] = dict(given=1, list=int(isinstance(pl, list)), e=[
            dict(kind="none" if x is None else "array" if isinstance(x, np.ndarray) else "other",
                 dims=list(x.shape) if isinstance(x, np.ndarray) else []) for x in pl])
        kw["param_list"] = pl
    return lambda: m.predict(df, **kw)


def set_cpos(rng, F, U, kw, n, M):
    if rng.random() < .3:
        kw["constrained_pos"] = sorted(rng.sample(range(n), rng.randint(1, n)))
    if "cpos-big" in F:
        kw["constrained_pos"] = kw.get("constrained_pos", []) + [n + rng.randint(0, 2)]
    if "cpos-text" in F:
        kw["constrained_pos"] = kw.get("constrained_pos", []) + ["first"]
    c = kw.get("constrained_pos", [])
    U["cpos"] = dict(ints=int(all(isinstance(x, int) for x in c)),
                     v=[x for x in c if isinstance(x, int)])


def request_fit(rng, m, T, M, F, U, sc):
    t = M["type"]
    nn, ns, ni, nb, nm = counts(M, len(set(T["alt"])))
    th = theta(sc["th"])
    kw = dict(maxiter=0, ridge=2.0, print_res=False, method="BFGS")
    kw.update(set_draws(rng, t, F, U))
    if "method" in F:
        kw["method"] = rng.choice(["newton", "BFG", ""])
        U["method"] = 0
    set_cpos(rng, F, U, kw, len(th), M)
    sep = t in ("Asym", "Scobit", "Uneven", "Cloglog") and not {
        "vals-short", "vals-long"} & F and (rng.random() < .5 or bool(F - {"method", "cpos-big", "cpos-text"}))
    if sep:
        p = dict(init_coefs=th[nn + ns + ni:].copy(), init_intercepts=None, init_shapes=None)
        if ni:
            p["init_intercepts"] = th[ns:ns + ni].copy()
        if ns:
            p["init_shapes"] = th[:ns].copy()
        for f in sorted(F):
            k = {"coefs": "init_coefs", "icpt": "init_intercepts",
                 "shapes": "init_shapes"}.get(f.split("-")[0])
            if k and f.endswith("short"):
                if p[k] is None:
                    p[k] = np.array([.1])
                elif len(p[k]) > 1:
                    p[k] = p[k][:-1]
            elif k and f.endswith("long"):
                p[k] = np.append(p[k], .1) if p[k] is not None else np.full(ni + nb + 2, .1)
            elif f == "no-coefs":
                p["init_coefs"] = None
            elif f == "no-shapes":
                p["init_shapes"] = None
        n = lambda x: -1 if x is None else len(x)             # noqa
        U["parts"] = dict(vals=-1, coefs=n(p["init_coefs"]), icpt=n(p["init_intercepts"]),
                          shapes=n(p["init_shapes"]))
        p = {k: v for k, v in p.items() if v is not None}
        return lambda: m.fit_mle(None, **dict(kw, **p))
    v = th
    if "vals-short" in F:
        v = v[:-1]
    if "vals-long" in F:
        v = np.append(v, [.1] * rng.randint(1, 2))
    U["parts"]["vals"] = len(v)
    if "parts" in F:
        kw[rng.choice(["init_coefs", "init_shapes", "init_intercepts"])] = v.copy()
        U["parts"]["coefs"] = len(v)
    return lambda: m.fit_mle(v, **kw)


def request_boot(rng, call, b, F, U, th, m):
    n = len(th)
    table = lambda k: pd.DataFrame(                           # noqa
        th[None, :] + np.random.RandomState(5).randn(k, n) * .1, columns=b.mle_params.index)
    boot, jack = "no-boot" not in F, "no-jack" not in F and rng.random() < .7
    itype = rng.choice(["pi", "bca"] if jack else ["pi"])
    if "no-jack" in F:
        itype = "bca"
    rkw = rng.choice(["bootstrap", "jackknife"])
    if call != "interval":
        boot, jack = rkw == "bootstrap" or rng.random() < .5, rkw == "jackknife" or rng.random() < .5
        if "no-reps" in F:
            boot, jack = (False, jack) if rkw == "bootstrap" else (boot, False)
        if "rkw" in F:
            rkw = rng.choice(["boot", "Bootstrap", "jack", "", "bootstrap "])
    if "itype" in F:
        itype = rng.choice(["percentile", "BCa", "", "PI", "pi ", None])
    level = rng.choice([80, 95, 99.5, .5, 50])
    for f in sorted(F):
        level = {"level-zero": 0, "level-neg": -rng.randint(1, 99), "level-hundred": 100,
                 "level-above": rng.choice([100.5, 101, 1000]), "level-text": "95",
                 "level-none": None}.get(f, level)
    if boot:
        b.bootstrap_replicates = table(12)
    if jack:
        b.jackknife_replicates = table(5)
    if rng.random() < .5 and boot:
        b.calc_percentile_interval(90)
    isnum = isinstance(level, (int, float))
    U.update(level=dict(num=int(isnum), v=num(level) if isnum else "0"), itype=str(itype), rkw=rkw,
             reps=dict(boot=int(boot), jack=int(jack)))
    if call == "interval":
        return lambda: b.calc_conf_intervals(level, interval_type=itype)
    if call == "loglikes":
        return lambda: b.calc_log_likes_for_replicates(replicates=rkw)
    kw = dict(ridge=.5)
    rows = U["nrow"]
    if rng.random() < .4 or {"w-short", "w-neg", "w-list"} & F:
        w = np.random.RandomState(3).rand(rows)
        if "w-neg" in F:
            w[rng.randrange(rows)] = -1
        if "w-short" in F:
            w = w[:-1]
        U["w"] = dict(given=1, flat=int("w-list" not in F), n=len(w), neg=int(bool((w < 0).any())))
        kw["weights"] = w.tolist() if "w-list" in F else w
    return lambda: b.calc_gradient_norm_for_replicates(replicates=rkw, **kw)


def request_replicates(rng, b, T, M, F, U, th):
    kw = dict(ridge=2.0, maxiter=1)
    n = rng.randint(1, 2)
    s = rng.choice([None, 0, rng.randint(1, 10 ** 6)])
    for f in sorted(F):
        n = {"nsamp-neg": -rng.randint(1, 3), "nsamp-float": 2.0}.get(f, n)
        s = {"seed-float": 3.0, "seed-neg": -rng.randint(1, 9)}.get(f, s)
    set_cpos(rng, F, U, kw, len(th), M)
    d = lambda x: dict(given=int(x is not None), int=int(isinstance(x, int)),      # noqa
                       v=int(x or 0))
    U["seed"], U["nsamp"] = d(s), dict(int=int(isinstance(n, int)), v=int(n))
    if M["type"] != "MNL":
        nb = counts(M, len(set(T["alt"])))[3]
        c = dict(mnl_obj=build(T, dict(M, type="MNL", iref=-1, sref=-1, nests=[], mix=[])),
                 mnl_init_vals=np.zeros(nb), mnl_fit_kwargs=dict(ridge=1.0, maxiter=1))
        for f, k in (("no-mnl", "mnl_obj"), ("no-mnl-init", "mnl_init_vals"),
                     ("no-mnl-kw", "mnl_fit_kwargs")):
            if f in F:
                del c[k]
        U["mnl"] = dict(obj=int("mnl_obj" in c), init=int("mnl_init_vals" in c),
                        kw=int("mnl_fit_kwargs" in c))
        kw.update(c, extract_init_vals=lambda obj, ser, k: np.full(k, .1))
    return lambda: b.generate_bootstrap_replicates(n, boot_seed=s, **kw)


def request_sample(rng, call, T, F, U):
    if call == "samples":
        s = rng.choice([None, 0, rng.randint(1, 10 ** 6)])
        for f in sorted(F):
            s = {"seed-float": 3.0, "seed-neg": -rng.randint(1, 9), "seed-text": "3"}[f]
        U["seed"] = dict(given=int(s is not None), int=int(isinstance(s, int)),
                         v=s if isinstance(s, int) else 0)
        A = [np.array(T[k]) for k in ("obs", "alt", "ch")]
        return lambda: bs.create_cross_sectional_bootstrap_samples(
            A[0], A[1], A[2], rng.randint(1, 4), seed=s)
    df = dataframe(T)
    g = bs.create_deepcopied_groupby_dict(df, "obs_id")
    ids = sorted(set(T["obs"]))
    drawn = [rng.choice(ids) for _ in ids]
    if "unknown-obs" in F:
        drawn[rng.randrange(len(drawn))] = max(ids) + rng.randint(1, 5)
    if "obscol" in F:
        df = df.drop(columns=["obs_id"])
    if "bootid" in F:
        df["bootstrap_id"] = 1
    U.update(ids=ids, drawn=drawn, bootid=int("bootstrap_id" in df))
    U["cols"]["obs"] = int("obs_id" in df)
    return lambda: bs.create_bootstrap_dataframe(df, "obs_id", np.array(drawn, dtype=float), g)


def make(rng, g):
    t = TYPEOF[g["type"]]
    J = rng.randint(3, 4)
    alts = rand_alts(rng, J)
    T = rand_table(rng, nobs=max(5, J), alts=alts, ncol=3, panel=t == "Mixed",
                   avail=rng.choice([.7, 1.0]))
    T2 = rand_table(rng, nobs=max(4, J), alts=alts, ncol=3, panel=t == "Mixed",
                    avail=rng.choice([.7, 1.0]))
    while True:
        M = rand_model(rng, T, t, maxcoef=4)
        if all(s["v"] for s in M["spec"]):
            break
    M["named"] = 1
    constant(M, T), constant(M, T2)
    fitted = g["call"] in ("panel", "confint") or rng.random() < .7 or (
        g["call"] == "predict" and not any(f.startswith("pl-") for f in g["faults"])) or \
        t == "Mixed"
    return dict(type=g["type"], call=g["call"], faults=sorted(g["faults"]), tab=T, tab2=T2, M=M,
                th=rand_theta(rng, T, M), fitted=fitted, salt=rng.random())


def scenarios(prop, tier, seed, gen):
    reps = (2, 4) if tier == "thorough" else (4, 8)
    for k, g in enumerate(readgen(gen, "MC_Use")):
        for j in range(reps[0] if g["faults"] else reps[1]):
            rng = random.Random("%s/%s/%s/%s/%s/%d" % (prop, seed, g["type"], g["call"],
                                                       ",".join(sorted(g["faults"])), j))
            yield "P29-%s-%s-%s-%d" % (g["type"].split()[0], g["call"],
                                       "+".join(sorted(g["faults"])) or "ok", j), (
                lambda rng=rng, g=g: make(rng, g))
