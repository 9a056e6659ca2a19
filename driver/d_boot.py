"""P24-P27: bootstrap samples, replicates and confidence intervals."""
from common import *                                          # noqa
from d_model import base_scenario
from d_table import readgen
from pylogit import bootstrap_sampler as bs
from pylogit.bootstrap import Boot


def cell(v):
    if isinstance(v, str):
        return v
    return num(v)


def ints(a, off=0):
    a = np.asarray(a)
    if a.ndim != 2:
        return []
    return [[int(v) - off if v == int(v) and abs(int(v) - off) < 2 ** 31 else -1 for v in row]
            for row in a]


def any_offset(rng):
    """What is added to the ids of a table: ids can have up to nineteen digits."""
    return rng.choice([0, 0, 10 ** 12, 2 ** 53, 2 ** 60])


# ------------------------------------------------------------------ P24 ----
def any_seed(rng):
    return rng.choice([0, 1, 2 ** 32 - 1, rng.randrange(10 ** 6), rng.randrange(10 ** 6)])


def run_samples(sc):
    T = sc["tab"]
    A = [np.array(T[k]) for k in ("obs", "alt", "ch")]
    off = sc["off"]
    A[0] = A[0] + off
    f = bs.create_cross_sectional_bootstrap_samples
    ev = dict(kind="samples", tab=T, nsamp=sc["nsamp"], seed=sc["seed"], out={})
    r, ev["err"] = guarded(lambda: (f(A[0], A[1], A[2], sc["nsamp"], seed=sc["seed"]),
                                    np.random.rand(3),
                                    f(A[0], A[1], A[2], sc["nsamp"], seed=sc["seed"])))
    if not ev["err"]:
        ev["out"] = dict(ids=ints(r[0], off), again=ints(r[2], off))
    out = [ev]
    if not ev["err"] and sc.get("frames"):
        for k in range(sc["frames"]):
            out += run_frame(dict(sc, ids=ev["out"]["ids"][k],
                                  raw=np.asarray(r[0])[k] if sc["rawids"] else None))
    return out


def run_frame(sc):
    T = sc["tab"]
    df = dataframe(T, order=sc.get("order"), index=sc.get("index"))
    df["note"] = ["n%d" % (r % 5) for r in range(len(df))]
    df = df.rename(columns={"obs_id": sc["obscol"]})
    off = sc.get("off", 0)
    ids = (sc["raw"] if sc.get("raw") is not None else
           np.array(sc["ids"]) + off if off else np.array(sc["ids"], dtype=float))
    ev = dict(kind="frame", ids=[int(i) - off for i in ids], obscol=sc["obscol"],
              bootcol=sc["bootcol"] or "bootstrap_id", cols=[str(c) for c in df.columns],
              rows=[[cell(v) for v in row] for row in df.values.tolist()], out={})
    if sc.get("src"):
        ev["src"] = sc["src"]
    if off:
        df[sc["obscol"]] = df[sc["obscol"]].astype(np.int64) + off
    kw = dict(boot_id_col=sc["bootcol"]) if sc["bootcol"] else {}

    def op():
        g = bs.create_deepcopied_groupby_dict(df, sc["obscol"])
        if sc.get("twice"):        # a sample must not disturb the next one
            bs.create_bootstrap_dataframe(df, sc["obscol"], ids[::-1].copy(), g, **kw)
        return bs.create_bootstrap_dataframe(df, sc["obscol"], ids, g, **kw)
    r, ev["err"] = guarded(op)
    if not ev["err"]:
        if off:
            r = r.assign(**{sc["obscol"]: r[sc["obscol"]] - off})
        ev["out"] = dict(cols=[str(c) for c in r.columns],
                         rows=[[cell(v) for v in row] for row in r.values.tolist()])
    return [ev]


def frame_from_tlc(rng, g):
    T = dict(obs=[], alt=[], ch=[], ind=[], x=[[]])
    for q in g["q"]:
        av = list(q["av"])
        rng.shuffle(av)
        for a in av:
            T["obs"].append(q["o"])
            T["alt"].append(a)
            T["ch"].append(int(a == q["c"]))
            T["ind"].append(q["o"])
            T["x"][0].append(num(round(rng.uniform(-2, 2), 2)))
    return dict(tab=T, ids=g["s"], src="tlc")


def make_samples(rng, k, tier):
    J = rng.randint(2, 4)
    alts = rand_alts(rng, J)
    n = rng.randint(30, 60) if 3 <= k < 9 else rng.randint(max(3, J), 8)
    T = rand_table(rng, nobs=n, alts=alts, ncol=2, avail=rng.choice([.6, 1.0]),
                   all_chosen=rng.random() < .7)
    r = len(T["obs"])
    if rng.random() < .3:              # the rows of an observation anywhere in the table
        o = list(range(r))
        rng.shuffle(o)
        T = dict({c: [T[c][j] for j in o] for c in ("obs", "alt", "ch", "ind")},
                 x=[[col[j] for j in o] for col in T["x"]])
    big = k % 6 == 0
    order = ["obs_id", "alt_id", "choice", "ind_id", "x1", "x2"]
    if rng.random() < .5:
        rng.shuffle(order)
    return dict(do="samples", tab=T, nsamp=240 if big else rng.randint(1, 6), seed=any_seed(rng),
                frames=1, off=any_offset(rng), rawids=rng.random() < .5, order=order, twice=rng.random() < .5,
                index=odd_index(rng, r) if rng.random() < .5 else None,
                obscol=rng.choice(["obs_id", "custom id"]),
                bootcol=rng.choice(["", "", "resample"]))


# ------------------------------------------------------------------ P25 ----
def labels_of(T, M):
    names = coef_names(M) if M.get("named") else default_names(M)
    return nest_names(M) + shape_names(T, M) + int_names(T, M) + names


def sub_table(T, rows, ids):
    return dict(obs=list(ids), ind=list(ids), alt=[T["alt"][r] for r in rows],
                ch=[T["ch"][r] for r in rows], x=[[c[r] for r in rows] for c in T["x"]])


def sample_table(T, s):
    rows, ids = [], []
    for k, o in enumerate(s):
        q = [r for r in range(len(T["obs"])) if T["obs"][r] == o]
        rows += q
        ids += [k + 1] * len(q)
    return sub_table(T, rows, ids)


def jack_table(T, o):
    rows = [r for r in range(len(T["obs"])) if T["obs"][r] != o]
    return sub_table(T, rows, [T["obs"][r] for r in rows])


def fit_options(sc):
    a = dict(method=sc["method"], maxiter=sc["maxiter"])
    if sc["ridge"] != "0":
        a["ridge"] = float(sc["ridge"])
    if sc["cpos"]:
        a["constrained_pos"] = [p - 1 for p in sc["cpos"]]
    if sc.get("tight"):
        a["gradient_tol"], a["loss_tol"] = 1e-8, 1e-12
    return a


def run_replicates(sc):
    T, M = sc["tab"], sc["M"]
    th = theta(sc["th"])
    n = len(th)
    df = dataframe(T, index=sc.get("index"))
    if sc["off"]:
        df["obs_id"] = df["obs_id"].astype(np.int64) + sc["off"]
    auto = [k + 1 for k, g in enumerate(M["nests"]) if len(g) == 1]
    ev = dict(kind="replicates", route=sc["route"], tab=T, M=clean_model(M), th=sc["th"],
              cpos=sorted(set(sc["cpos"]) | set(auto)), ridge=sc["ridge"], w=sc["w"], nridge=sc["nridge"],
              nsamp=sc["nsamp"], labels=labels_of(T, M), ids=[], refit=[], rtol="0.0005",
              station=0 if M["type"] == "Nested" else 1, out={}, err="")
    used = []
    if sc["extract"] == "default":
        from pylogit.bootstrap_mle import extract_default_init_vals as default

        def extract(m, s, k):
            v = default(m, s, k)
            used.append(np.array(v, dtype=float))
            return v
        ev["cpos"] = auto
    else:
        def extract(m, s, k):
            used.append(th.copy())
            return th.copy()
    b, ev["err"] = guarded(lambda: Boot(build(T, M, df=df), th.copy()))
    if ev["err"]:
        return [ev]
    kw = fit_options(sc)
    if M["type"] == "MNL":
        kw["mnl_init_vals"] = th.copy()
        if sc["via_mnl"]:
            inner = dict(kw)
            inner.pop("mnl_init_vals")
            kw = dict(mnl_init_vals=th.copy(), mnl_fit_kwargs=inner)
    elif sc["route"] != "given":
        mm = build(T, dict(M, type="MNL", iref=-1, nests=[], mix=[]), df=df)
        nb = counts(M, len(set(T["alt"])))[3]
        kw.update(mnl_obj=mm, mnl_init_vals=np.zeros(nb), extract_init_vals=extract,
                  mnl_fit_kwargs=dict(ridge=.5, maxiter=sc["mnlmax"]))

    def op():
        if sc["route"] == "boot":
            if any(v != "1" for v in sc["w"]):
                kw["weights"] = theta(sc["w"])
            b.generate_bootstrap_replicates(sc["nsamp"], boot_seed=sc["seed"], **kw)
            return b.bootstrap_replicates
        if sc["route"] == "jack":
            b.generate_jackknife_replicates(**kw)
            return b.jackknife_replicates
        which = sc["which"]
        d = pd.DataFrame([theta(x) for x in sc["given"]], columns=b.mle_params.index)
        setattr(b, which + "_replicates", d)
        return d
    r, ev["err"] = guarded(op)
    if ev["err"]:
        return [ev]
    o = dict(reps=mat(r.values), cols=[str(c) for c in r.columns], ll=[], norm=[], kept=[])
    which = dict(boot="bootstrap", jack="jackknife").get(sc["route"], sc["which"])

    def more():
        if sc["want"] in ("ll", "both"):
            o["ll"] = nums(b.calc_log_likes_for_replicates(replicates=which))
            o["kept"] = nums(getattr(b, which + "_log_likelihoods"))
        if sc["want"] in ("norm", "both"):
            k2 = {}
            if sc["nridge"] != "0":
                k2["ridge"] = float(sc["nridge"])
            if sc["route"] == "given" and any(v != "1" for v in sc["w"]):
                k2["weights"] = theta(sc["w"])
            o["norm"] = nums(b.calc_gradient_norm_for_replicates(replicates=which, **k2))
    _, ev["err"] = guarded(more)
    ev["out"] = o
    if ev["err"] or sc["route"] == "given":
        return [ev]
    # the same fits, made directly
    if sc["route"] == "boot":
        ids = ints(bs.create_cross_sectional_bootstrap_samples(
            np.array(T["obs"]), np.array(T["alt"]), np.array(T["ch"]), sc["nsamp"],
            seed=sc["seed"]))
        ev["ids"] = ids
        tabs = [sample_table(T, s) for s in ids]
    else:
        tabs = [jack_table(T, x) for x in sorted(set(T["obs"]))]
    for k, t in enumerate(tabs):
        start = th if M["type"] == "MNL" else used[k] if k < len(used) else th
        a = fit_options(sc)
        if sc["route"] == "boot" and any(v != "1" for v in sc["w"]):
            wt = dict(zip(T["obs"], sc["w"]))
            a["weights"] = theta([wt[o] for o in ids[k] for q in T["obs"] if q == o])
        x, e = guarded(lambda: build(t, M).fit_mle(start, just_point=True, print_res=False, **a))
        if e:
            ev["refit"].append(dict(ok=0, x=[]))
        else:
            ok = 1 if x["success"] or M["type"] == "Nested" else 0
            ev["refit"].append(dict(ok=ok, x=nums(x["x"])))
    return [ev]


def common_alts(T):
    """every alternative is available in two observations, and chosen twice"""
    return all(len({o for o, x in zip(T["obs"], T["alt"]) if x == a}) > 1 for a in set(T["alt"]))


def make_replicates(rng, k, tier):
    t = (["MNL"] * 2 + TYPES[:6])[k % 8]
    while True:
        sc = base_scenario(rng, t, nobs=(11, 15) if k % 12 == 5 else (5, 8), nalt=(2, 3), maxcoef=3)
        if common_alts(sc["tab"]):
            break
    T, M = sc["tab"], sc["M"]
    n = nparam(T, M)
    sc.update(do="replicates", route=["boot", "jack", "given", "boot"][(k // 8) % 4],
              which=rng.choice(["bootstrap", "jackknife"]), nsamp=rng.randint(11, 13) if k % 12 == 7 else rng.randint(1, 4),
              seed=any_seed(rng), cpos=[], nridge="0", via_mnl=rng.random() < .3,
              want=rng.choice(["", "ll", "norm", "both"]), method="BFGS", maxiter=300,
              mnlmax=rng.choice([0, 3, 100]), extract="own",
              ridge=rng.choice(["0.5", "1.5"]), tight=rng.random() < .5)
    if sc["route"] == "given":
        sc["given"] = [rand_theta(rng, T, M) for _ in range(sc["nsamp"])]
        sc["want"] = "both"
        if rng.random() < .5:
            sc["w"] = unit_weights(rng, T, M, "frac")
        if t != "Nested" and rng.random() < .5:
            sc["nridge"] = "0.7"
    elif sc["route"] == "boot" and rng.random() < .5:
        sc["w"] = unit_weights(rng, T, M, rng.choice(["frac", "int"]))
    if sc["route"] != "given" and rng.random() < .5 and n > 1:
        sc["cpos"] = rng.sample(range(1, n + 1), rng.randint(1, n - 1))
    if t == "Nested":
        sc["maxiter"] = rng.choice([1, 2, 3])
        sc["ridge"] = rng.choice(["0", "0.5"])
    elif t != "MNL" and M["iref"] < 0 and not sc["cpos"] and rng.random() < .5:
        sc["extract"] = "default"
    if rng.random() < .4:
        sc["index"] = odd_index(rng, len(T["obs"]))
    sc["off"] = any_offset(rng)
    return sc


# ------------------------------------------------------------------ P26 ----
def frame_out(d, labelled=1):
    return dict(table=mat(d.values), index=[str(i) for i in d.index], labelled=labelled,
                cols=[str(c).replace("%", "").strip() for c in d.columns])


def run_interval(sc):
    T, M = sc["tab"], sc["M"]
    mle = theta(sc["mle"])
    reps = np.array([theta(c) for c in sc["reps"]]).T.copy()
    jack = np.array([theta(c) for c in sc["jack"]]).T.copy()
    level = float(sc["level"])
    if level == int(level) and sc["intlevel"]:
        level = int(level)
    base = dict(kind="interval", reps=sc["reps"], jack=sc["jack"], mle=sc["mle"],
                level=sc["level"], labels=labels_of(T, M), err="", out={})
    if sc.get("src"):
        base["src"] = sc["src"]
    evs = []

    def make():
        b = Boot(build(T, M), mle.copy())
        b.bootstrap_replicates = pd.DataFrame(reps, columns=b.mle_params.index)
        b.jackknife_replicates = pd.DataFrame(jack, columns=b.mle_params.index)
        return b
    how = sc["how"]

    def op():
        if how == "direct":
            from pylogit import bootstrap_calcs as bc
            for route, r in (("pi", bc.calc_percentile_interval(reps, level)),
                             ("bca", bc.calc_bca_interval(reps, jack, mle, level))):
                yield route, dict(table=mat(np.asarray(r).T), index=[], labelled=0, cols=[])
            return
        b = make()
        if how == "method":
            b.calc_percentile_interval(level)
            b.calc_bca_interval(level)
        elif how == "conf":
            b.calc_conf_intervals(level, interval_type="bca")
            b.calc_conf_intervals(level, interval_type="pi")
        else:
            b.calc_conf_intervals(level, interval_type="all", init_vals=mle.copy(),
                                  epsilon=0.01, print_res=False, maxiter=0)
            a = b.all_intervals
            for route, key in (("pi", "percentile_interval"), ("bca", "BCa_interval")):
                yield route, frame_out(a[key])
            if [str(x) for x in a.columns.get_level_values(0)] != [
                    "percentile_interval"] * 2 + ["BCa_interval"] * 2 + ["ABC_interval"] * 2:
                yield "pi", dict(table=[], index=[], labelled=1, cols=[])
        yield "pi", frame_out(b.percentile_interval)
        yield "bca", frame_out(b.bca_interval)
    it, err = guarded(lambda: list(op()))
    if err:
        return [dict(base, err=err, route="pi")]
    for route, o in it:
        evs.append(dict(base, route=route, out=o))
    return evs


def run_refusal(sc):
    T, M = sc["tab"], sc["M"]
    mle = theta(sc["mle"])
    b = Boot(build(T, M), mle.copy())
    for a, src in (("bootstrap_replicates", "reps"), ("jackknife_replicates", "jack")):
        setattr(b, a, pd.DataFrame(np.array([theta(c) for c in sc[src]]).T,
                                   columns=b.mle_params.index))
    v = sc["value"]
    _, e = guarded(lambda: b.calc_conf_intervals(
        v, interval_type=sc["itype"], init_vals=mle.copy(), print_res=False))
    isnum = isinstance(v, (int, float)) and not isinstance(v, bool)
    lev = "nan" if isinstance(v, (str, type(None), list)) else num(v)
    return [dict(kind="refusal", level=lev, numeric=int(isnum), refused=e, itype=sc["itype"])]


def rescaled(c, e):
    """the numerals of a column times a power of ten"""
    return [num(float(v) * 10.0 ** e) for v in c]


def column(rng, n, style):
    if style == "ties":
        pool = [num(round(rng.uniform(-2, 2), 1)) for _ in range(max(2, n // 3))]
        return [rng.choice(pool) for _ in range(n)]
    if style == "skew":
        return [num(round(rng.expovariate(1.0) ** 2 - .5, 4)) for _ in range(n)]
    return [num(round(rng.gauss(0, 1), 4)) for _ in range(n)]


def make_interval(rng, k, tier, g=None):
    sc = base_scenario(rng, "MNL" if rng.random() < .6 else rng.choice(TYPES[:6]),
                       nobs=(4, 6), nalt=(2, 3), maxcoef=4)
    T, M = sc["tab"], sc["M"]
    K = nparam(T, M)
    n = rng.choice([2, 3, 5, 11, 21, 40, 41, 100, rng.randint(4, 60), rng.randint(61, 300)])
    style = [rng.choice(["gauss", "gauss", "ties", "skew"]) for _ in range(K)]
    level = rng.choice([95, 90, 80, 50, 99, 60, 20, 99.9, num(round(rng.uniform(1, 99), 2))])
    reps = [column(rng, n, s) for s in style]
    if g is not None:
        n = len(g)
        reps = [[str(v) for v in g]] + [rng.sample([str(v) for v in g], n) for _ in range(K - 1)]
    m = rng.randint(3, 8) if k % 9 else rng.randint(9, 50)
    jack = [column(rng, m, rng.choice(["gauss", "skew"])) if rng.random() < .85
            else ["0.5"] * m for _ in range(K)]
    mle = []
    for c in reps:
        s = sorted(float(v) for v in c)
        if s[0] == s[-1]:
            # constant: nothing is below, or nothing above
            c[0] = num(s[0] - 1)
            s[0] = s[0] - 1
        above = [v for v in s if v > s[0]]
        if rng.random() < .3:
            mle.append(num(rng.choice(above)))           # a tie with a replicate
        else:
            mle.append(num(round(rng.uniform(s[0] + 1e-6, s[-1]), 5)))
        if not (s[0] < float(mle[-1]) <= s[-1]):
            mle[-1] = num(s[-1])
    if g is None and rng.random() < .5:
        # parameters of very different magnitude
        for j in range(K):
            e = rng.choice([-7, -5, -3, 0, 2, 4])
            reps[j], mle[j] = rescaled(reps[j], e), rescaled([mle[j]], e)[0]
            if len(set(jack[j])) > 1:
                jack[j] = rescaled(jack[j], e)
    sc.update(do="interval", reps=reps, jack=jack, mle=mle, level=num(level),
              intlevel=rng.random() < .5,
              how=rng.choice(["direct", "method", "conf", "conf"]))
    if M["type"] == "MNL" and rng.random() < .1:
        sc["how"] = "all"
    if g is not None:
        sc["src"] = "tlc"
    if g is None and k % 8 == 7:
        sc["do"] = "refusal"
        sc["itype"] = rng.choice(["pi", "bca", "abc"])
        sc["value"] = rng.choice([0, 100, -5, 150, 100.0, 0.0, "95", None, float("nan"),
                                  float("inf"), -0.001, 100.0001])
        if sc["itype"] != "abc" and rng.random() < .3:
            sc["value"] = rng.choice([95, 0.5, 99.99, 50.0])
    return sc


# ------------------------------------------------------------------ P27 ----
def exact_fit(T, M):
    """The conditional logit estimate under row weights, by Newton's method"""
    oq = list(dict.fromkeys(T["obs"]))
    oi = np.array([oq.index(o) for o in T["obs"]])
    cs = [(s["v"], g) for s in M["spec"] for g in s["g"]]
    X = np.array([[float(T["x"][v - 1][r]) if T["alt"][r] in g else 0. for v, g in cs]
                  for r in range(len(oi))])
    y = np.array(T["ch"], dtype=float)
    K = len(cs)

    def fit(init_vals, weights=None, **kw):
        w = np.ones(len(oi)) if weights is None else np.asarray(weights, dtype=float).ravel()
        th = np.zeros(K)
        for _ in range(100):
            u = np.exp(X.dot(th))
            p = u / np.bincount(oi, u)[oi]
            mu = np.array([np.bincount(oi, p * X[:, k]) for k in range(K)]).T
            H = (X * (w * p)[:, None]).T.dot(X - mu[oi])
            s = np.linalg.solve(H, X.T.dot(w * (y - p)))
            th = th + s * min(1.0, 2.0 / max(1e-9, np.abs(s).max()))
            if np.abs(s).max() < 1e-14:
                break
        return dict(x=th, success=True)
    return fit


def run_abc(sc):
    T, M = sc["tab"], sc["M"]
    ev = dict(kind="abc", tab=T, M=clean_model(M), w=sc["w"], eps=sc["eps"], level=sc["level"],
              labels=labels_of(T, M), mle=[], tol="0.003", out={}, err="", how=sc["how"])
    df = dataframe(T, index=sc.get("index"))
    w = theta(sc["w"])
    fk = dict(method=sc["method"], gradient_tol=1e-10, loss_tol=1e-14, maxiter=300,
              print_res=False)
    if any(v != "1" for v in sc["w"]):
        fk["weights"] = w
    m = build(T, M, df=df)
    n = nparam(T, M)
    if sc["exact"]:
        # the estimate as a function of the weights, to the last digits
        m.fit_mle = exact_fit(T, M)
        ev["tol"] = "0.00001"
    x, e = guarded(lambda: m.fit_mle(np.zeros(n), just_point=True, **fk))
    if e or not np.all(np.isfinite(x["x"])) or np.abs(x["x"]).max() > 2.5:
        return []
    mle = np.array(x["x"])
    ev["mle"] = nums(mle)
    level = float(sc["level"])
    init = mle.copy() if sc["start"] == "mle" else np.zeros(n)

    def op():
        if sc["how"] == "direct":
            from pylogit import bootstrap_abc as ab
            r = ab.calc_abc_interval(m, mle.copy(), init, level, epsilon=float(sc["eps"]), **fk)
            return dict(table=mat(np.asarray(r).T), index=[], labelled=0, cols=[])
        b = Boot(m, mle.copy())
        if sc["how"] == "method":
            b.calc_abc_interval(level, init, epsilon=float(sc["eps"]), **fk)
        else:
            b.calc_conf_intervals(level, interval_type="abc", init_vals=init,
                                  epsilon=float(sc["eps"]), **fk)
        return frame_out(b.abc_interval)
    o, err = guarded(op)
    if err:
        # a limit outside the positive weights has no definition
        if "weight" in err.lower() or "LinAlg" in err:
            return []
        ev["err"] = err
    ev["out"] = o or {}
    return [ev]


def run_spread(sc):
    from pylogit import bootstrap_abc as ab
    T, M = sc["tab"], sc["M"]
    m = build(T, M, df=dataframe(T, index=sc.get("index")))
    wide = np.array([theta(c) for c in sc["wide"]]).T
    ev = dict(kind="spread", tab=T, wide=sc["wide"], out={}, err="")

    def op():
        arg = wide[:, 0].copy() if sc["one"] else wide.copy()
        r = np.asarray(ab.create_long_form_weights(m, arg))
        if sc["one"]:
            return [nums(r)] if r.ndim == 1 else []
        return [nums(r[:, k]) for k in range(r.shape[1])]
    o, ev["err"] = guarded(op)
    ev["out"] = dict(cols=o or [])
    return [ev]


def make_abc(rng, k, tier):
    if k % 5 == 4:
        sc = base_scenario(rng, TYPES[(k // 5) % 7], nobs=(12, 24) if k < 40 else (3, 7),
                           nalt=(2, 4))
        n = len(set(sc["tab"]["obs"]))
        sc["one"] = rng.random() < .5
        sc["wide"] = [[num(round(rng.uniform(-1, 2), 3)) for _ in range(n)]
                      for _ in range(1 if sc["one"] else rng.randint(1, 3))]
        sc["do"] = "spread"
    else:
        while True:
            sc = base_scenario(rng, "MNL", nobs=(12, 20) if 10 <= k < 20 else (6, 9), nalt=(2, 3),
                               maxcoef=2, icpt=False)
            if common_alts(sc["tab"]):
                break
        if rng.random() < .5:
            sc["w"] = unit_weights(rng, sc["tab"], sc["M"], "frac")
            sc["w"] = [w if float(w) >= .2 else "0.5" for w in sc["w"]]
        sc["exact"] = k % 5 != 3
        sc.update(do="abc", eps=rng.choice(["0.01", "0.02", "0.005", "0.03"]
                                           if sc["exact"] else ["0.03", "0.05"]),
                  level=rng.choice(["50", "80", "90", "68", "60", "20"]),
                  method=rng.choice(["trust-ncg", "dogleg"]),
                  how=rng.choice(["direct", "method", "conf"]),
                  start=rng.choice(["mle", "zero"]))
    if rng.random() < .4:
        sc["index"] = odd_index(rng, len(sc["tab"]["obs"]))
    return sc


RUN = dict(samples=run_samples, frame=run_frame, replicates=run_replicates,
           interval=run_interval, refusal=run_refusal, abc=run_abc, spread=run_spread)
MAKE = dict(P24=make_samples, P25=make_replicates, P26=make_interval, P27=make_abc)
COUNT = dict(P24=(240, 1500), P25=(192, 1200), P26=(400, 3000), P27=(360, 2500))
TLC = dict(P24=("MC_Boot", 120, 2000), P26=("MC_Interval", 120, 2000))


def run(sc):
    return RUN[sc["do"]](sc)


def scenarios(prop, tier, seed, gen):
    big = 1 if tier == "thorough" else 0
    for k in range(COUNT[prop][big]):
        yield "%s-%d" % (prop, k), lambda k=k: MAKE[prop](
            random.Random("%s/%s/%s" % (prop, seed, k)), k, tier)
    if prop in TLC:
        module, few, many = TLC[prop]
        gs = readgen(gen, module)
        pick = random.Random("%s/%s" % (prop, seed))
        n = many if big else few
        for k, g in enumerate(gs if len(gs) <= n else pick.sample(gs, n)):
            def mk(k=k, g=g):
                rng = random.Random("%s/%s/t%s" % (prop, seed, k))
                if prop == "P26":
                    return make_interval(rng, k, tier, g)
                sc = frame_from_tlc(rng, g)
                sc.update(do="frame", obscol="obs_id", bootcol=rng.choice(["", "b"]),
                          twice=rng.random() < .5)
                return sc
            yield "%s-tlc%d" % (prop, k), mk
