"""P11, P15, P23, P28: relations between executions."""
from common import *                                          # noqa
from d_model import base_scenario
from d_fit import fit


def evaluate(T, M, th, w=None, ridge=None, df=None, model=None, probs=False):
    e = estimator(model or build(T, M, df=df), T, M, th, w=w, ridge=ridge)
    o = dict(ll=num(e.convenience_calc_log_likelihood(th)),
             grad=nums(e.convenience_calc_gradient(th)),
             hess=mat(e.convenience_calc_hessian(th)),
             info=[] if M["type"] in ("Nested", "Mixed") else
             mat(e.convenience_calc_fisher_approx(th)))
    if probs:
        p = np.asarray(e.convenience_calc_probs(th)[1])
        o["probs"] = nums(p.mean(axis=1) if M["type"] == "Mixed" else p)
    return o


# ------------------------------------------------------------------ P15 ----
def replicate(rng, T, M, w):
    key = T["ind"] if M["type"] == "Mixed" else T["obs"]
    units = list(dict.fromkeys(key))
    reps = [(u, c) for u in units
            for c in range(int(next(w[r] for r in range(len(w)) if key[r] == u)))]
    if rng.random() < .5:
        rng.shuffle(reps)
    R = dict(obs=[], alt=[], ch=[], ind=[], x=[[] for _ in T["x"]])
    frm, oid, iid = [], 0, 0
    inds = list(dict.fromkeys(T["ind"]))
    draws = [[] for _ in M["draws"]]
    for u, c in reps:
        iid += 1
        m, last = {}, None
        for r in range(len(key)):
            if key[r] != u:
                continue
            if T["obs"][r] not in m:
                oid += 1
                m[T["obs"][r]] = oid
            R["obs"].append(m[T["obs"][r]])
            R["ind"].append(iid)
            R["alt"].append(T["alt"][r])
            R["ch"].append(T["ch"][r])
            for k, col in enumerate(T["x"]):
                R["x"][k].append(col[r])
            frm.append(r + 1)
        if M["type"] == "Mixed":
            for k, d in enumerate(M["draws"]):
                draws[k].append(d[inds.index(u)])
    return R, dict(M, draws=draws), frm


def run_weights(sc):
    T, M, w = sc["tab"], sc["M"], sc["w"]
    TR, MR, frm = sc["tabR"], sc["MR"], sc["from"]
    th = theta(sc["th"])
    ridge = None if sc["ridge"] == "0" else float(sc["ridge"])
    cw = [num(float(v) * float(sc["factor"])) for v in w]

    def op():
        o = dict(weighted=evaluate(T, M, th, w, ridge),
                 replicated=evaluate(TR, MR, th, None, ridge),
                 plain=evaluate(T, M, th, w, None),
                 scaled=evaluate(T, M, th, cw, None),
                 unit=evaluate(T, M, th, ["1"] * len(w), ridge),
                 none=evaluate(T, M, th, None, ridge), est=[], estR=[], success=0)
        if sc["fit"]:
            f = dict(sc, method="BFGS", maxiter=300, loss_tol=1e-13, gradient_tol=1e-7)
            m = build(T, M)
            if sc["pt"]:
                r = fit(m, f, just_point=True)
                o["est"], o["success"] = nums(r["x"]), 1
                g = estimator(build(T, M), T, M, r["x"], w=w, ridge=ridge)
                if max(abs(np.delete(g.convenience_calc_gradient(r["x"]),
                                     [p - 1 for p in sc["cpos"]])), default=0) > 1e-5:
                    o["success"] = 0
            else:
                fit(m, f)
                o["est"], o["success"] = nums(m.params), 1 if m.estimation_success else 0
            if M["type"] == "MNL":
                m2 = build(TR, MR)
                fit(m2, dict(f, tab=TR, w=["1"] * len(frm)))
                o["estR"] = nums(m2.params)
        return o
    o, err = guarded(op)
    if err.startswith("LinAlgError"):
        return []
    return [dict(kind="weights", err=err, tab=T, M=clean_model(M), tabR=TR, MR=clean_model(MR),
                 **{"from": frm}, th=sc["th"], w=w, ridge=sc["ridge"], factor=sc["factor"],
                 cpos=sc["cpos"], out=o or {})]


def mk_weights(rng, k, tier):
    t = TYPES[k % 7]
    while True:
        sc = base_scenario(rng, t, nobs=(3, 5), nalt=(2, 3), maxcoef=3, ridge=True)
        T, M = sc["tab"], sc["M"]
        key = T["ind"] if t == "Mixed" else T["obs"]
        wt = {u: rng.choice([0, 1, 4, 11, 30] if 14 <= k < 28 else [0, 1, 1, 2, 3])
              for u in dict.fromkeys(key)}
        sc["w"] = [str(wt[u]) for u in key]
        left = [r for r in range(len(key)) if wt[key[r]]]
        if {T["alt"][r] for r in left} == set(T["alt"]) and len({key[r] for r in left}) > 1:
            break
    sc["tabR"], sc["MR"], sc["from"] = replicate(rng, T, M, sc["w"])
    sc["factor"] = rng.choice(["2", "0.5", "3.25"])
    sc["fit"] = 0
    sc["cpos"] = [j + 1 for j, n in enumerate(M["nests"]) if len(n) == 1]
    if t != "Mixed" and k % 2 == 0:
        sc["fit"] = 1
        sc["ridge"] = "0" if t == "Nested" else "0.7"
        sc["pt"] = rng.random() < .4
    return sc


# ------------------------------------------------------------------ P11 ----
MAGS = [1, 1, 30, 300, 800, 1e4, 1e8, 1e15, 1e100, 1e290]


def run_extreme(sc):
    T, M = sc["tab"], sc["M"]
    th = theta(sc["th"])
    ridge = None if sc["ridge"] == "0" else float(sc["ridge"])

    def op():
        if sc["route"] == "predict":
            m = build(T, M)
            c, p = m.predict(dataframe(T), param_list=param_list(T, M, th), choice_col="choice")
            e = estimator(build(T, M), T, M, th, ridge=ridge)
        else:
            e = estimator(build(T, M), T, M, th, ridge=ridge)
            c, p = [np.asarray(q) for q in e.convenience_calc_probs(th)]
            if M["type"] == "Mixed":
                c, p = c.mean(axis=1), p.mean(axis=1)
        return dict(probs=nums(p), chosen=nums(c), ll=num(e.convenience_calc_log_likelihood(th)))
    o, err = guarded(op)
    return [dict(kind="extreme", err=err, tab=T, M=clean_model(M), th=sc["th"],
                 ridge=sc["ridge"], dominant=sc["dominant"], out=o or {})]


def mk_extreme(rng, k, tier):
    t = TYPES[k % 7]
    while True:
        sc = base_scenario(rng, t, nobs=(30, 50) if 14 <= k < 28 else (3, 5),
                           nalt=(2, 10 if 14 <= k < 28 else 4), maxcoef=11 if 14 <= k < 28 else 4,
                           icpt=False, few=True)
        T, M = sc["tab"], sc["M"]
        th = theta(sc["th"])
        sc["dominant"] = []
        sc["route"] = "predict" if t != "Mixed" and rng.random() < .4 else "est"
        kind = rng.choice(["theta", "data", "both", "dominant"])
        nn, ns, ni, nb, nm = counts(M, len(set(T["alt"])))
        b0 = nn + ns + ni
        if kind in ("theta", "both"):
            for i in range(len(th)):
                if rng.random() < .6:
                    th[i] *= rng.choice(MAGS)
        if kind in ("data", "both"):
            g = rng.choice(MAGS)
            T["x"] = [[num(float(v) * (g if rng.random() < .5 else 1)) for v in c]
                      for c in T["x"]]
        if kind == "dominant":
            # one row's utility driven high through one of its variables
            th[b0 + nb:] = 0
            th[:nn] = np.clip(th[:nn], -1, 2.5)
            r = rng.randrange(len(T["obs"]))
            c = next((j for j, (v, g) in enumerate(
                [(s["v"], g) for s in M["spec"] for g in s["g"]])
                if T["alt"][r] in g and abs(th[b0 + j]) > .05), None)
            if c is None:
                continue
            v = [s["v"] for s in M["spec"] for g in s["g"]][c]
            up = rng.choice([80., 200., 700., 1e3, 1e5, 1e12, 1e100, 1e280])
            T["x"][v - 1][r] = num(up / th[b0 + c])
            X = np.array(build(T, M).design)
            V = X.dot(th[b0:b0 + nb])
            rest = [q for q in range(len(V)) if T["obs"][q] == T["obs"][r] and q != r]
            if V[r] < 70 or any(abs(V[q]) > 2.9 for q in rest):
                continue
            sc["dominant"] = [r + 1]
        big = max(abs(float(v)) for c in T["x"] for v in c) * max(abs(th)) * 10
        if big < 1e299:
            break
    sc["th"] = nums(th)
    # a squared penalty of huge parameters overflows by itself
    sc["ridge"] = "0.5" if max(abs(th)) < 1e100 and rng.random() < .2 else "0"
    return sc


# ------------------------------------------------------------------ P23 ----
def run_panel(sc):
    T, M, T2 = sc["tab"], sc["M"], sc["tab2"]
    th = theta(sc["th"])
    nm = len(M["mix"])
    mode = sc["mode"]

    def op():
        m = build(T, M, df=dataframe(T, index=sc["i1"]))
        m.fit_mle(th, sc["nfit"], seed=5, maxiter=0, print_res=False, ridge=3.7)
        kw = dict(seed=sc["seed"], return_long_probs=mode != "chosen")
        if mode != "long":
            kw["choice_col"] = "choice"
        df2 = dataframe(T2, index=sc["i2"])
        if mode == "long":
            del df2["choice"]
        r = m.panel_predict(df2, sc["nd"], **kw)
        if mode == "both":
            return dict(chosen=nums(r[0]), long=nums(r[1]))
        return {"long": [], "chosen": [], mode: nums(r)}
    o, err = guarded(op)
    if err.startswith("LinAlgError"):
        return []
    M2 = dict(M, draws=lib_draws(T2, M, sc["nd"], sc["seed"]))
    return [dict(kind="panel", err=err, tab=T, tab2=T2, M=clean_model(M2), th=sc["th"],
                 mode=mode, out=o or {})]


def mk_panel(rng, k, tier):
    large = 14 <= k < 24
    sc = base_scenario(rng, "Mixed", nobs=(14, 24) if large else (4, 8),
                       nalt=(2, 6 if large else 3), panel=True)
    T = sc["tab"]
    alts = sorted(set(T["alt"]))
    T2 = rand_table(rng, nobs=rng.randint(14, 20) if large else rng.randint(1, 7), alts=alts, ncol=len(T["x"]), panel=True,
                    all_chosen=False, avail=rng.choice([.6, 1.0]))
    constant(sc["M"], T2)
    pool = list(dict.fromkeys(T["ind"]))
    rng.shuffle(pool)
    m = {}
    p = rng.choice([1.0, .8, .5, 0.0])
    for i in T2["ind"]:
        m.setdefault(i, pool.pop() if pool and rng.random() < p else 1000 + i)
    T2["ind"] = [m[i] for i in T2["ind"]]
    if rng.random() < .15:
        T2 = dict((q, list(v)) for q, v in T.items())     # the estimation data itself
    sc["tab2"] = T2
    sc["mode"] = ["long", "both", "chosen"][k % 3]
    sc["nd"], sc["nfit"] = rng.randint(10, 30) if large else rng.randint(1, 5), rng.randint(1, 4)
    sc["seed"] = rng.randint(1, 10 ** 6)
    sc["i1"] = odd_index(rng, len(T["obs"])) if rng.random() < .3 else None
    sc["i2"] = odd_index(rng, len(T2["obs"])) if rng.random() < .3 else None
    return sc


# ------------------------------------------------------------------ P28 ----
def run_rearrange(sc):
    T, M, T2, M2, frm = sc["tab"], sc["M"], sc["tab2"], sc["M2"], sc["from"]
    th = theta(sc["th"])
    ridge = None if sc["ridge"] == "0" else float(sc["ridge"])
    w = None if all(v == "1" for v in sc["w"]) else sc["w"]
    w2 = None if w is None else [w[r - 1] for r in frm]

    def one(T, M, w, df):
        o = evaluate(T, M, th, w, ridge, df=df, probs=True)
        o["est"], o["success"] = [], 0
        if sc["fit"]:
            f = dict(sc, M=M, tab=T, method="BFGS", maxiter=200, loss_tol=1e-13,
                     gradient_tol=1e-7, w=w or ["1"] * len(frm))
            m = build(T, M, df=df)
            fit(m, f)
            o["est"], o["success"] = nums(m.params), 1 if m.estimation_success else 0
            o["probs"] = nums(m.predict(df)) if sc["pr"] else o["probs"]
        return o

    def op():
        d1 = dataframe(T)
        d2 = dataframe(T2, index=sc["index"], order=sc["order"])
        if sc["floats"]:
            for c in ("obs_id", "ind_id"):
                d2[c] = d2[c].astype(float) + .5
        if sc["long"]:                          # ids of a dozen digits or more
            for c in ("obs_id", "ind_id"):
                d2[c] = (d2[c].astype(np.int64) + 2 ** 60 if sc["long"] > 1 else
                         d2[c].astype(np.int64) * 1000 + 9 * 10 ** 12)
        if sc["text"]:                          # ids that are words, in the same order
            for c in ("obs_id", "ind_id"):
                d2[c] = ["id %013d" % (int(v) + 10 ** 4) for v in d2[c]]
        if sc["file"]:
            d2 = as_file(d2)
        return dict(a=one(T, M, w, d1), b=one(T2, M2, w2, d2))
    o, err = guarded(op)
    if err.startswith("LinAlgError"):
        return []
    return [dict(kind="rearrange", err=err, tab=T, M=clean_model(M), tab2=T2,
                 M2=clean_model(M2), **{"from": frm}, th=sc["th"], what=sc["what"], out=o or {})]


def mk_rearrange(rng, k, tier):
    t = TYPES[k % 7]
    large = 14 <= k < 28
    sc = base_scenario(rng, t, nobs=(30, 60) if large else (4, 7), nalt=(2, 8 if large else 4),
                       maxcoef=5 if large else 3, weights=k % 3 == 0, ridge=True)
    T, M = sc["tab"], sc["M"]
    n = len(T["obs"])
    what = rng.sample(["rows", "obs", "obsid", "indid", "altid", "index", "cols"],
                      rng.randint(1, 4))
    obs = list(dict.fromkeys(T["obs"]))
    if "obs" in what:
        rng.shuffle(obs)
    frm = []
    for o in obs:
        q = [r for r in range(n) if T["obs"][r] == o]
        if "rows" in what:
            rng.shuffle(q)
        frm += q

    def relabel(ids):
        u = sorted(set(ids))
        return dict(zip(u, sorted(rng.sample(range(0, 5 * len(u) + 40), len(u)))))
    mo = relabel(T["obs"]) if "obsid" in what else {v: v for v in T["obs"]}
    mi = relabel(T["ind"]) if "indid" in what else {v: v for v in T["ind"]}
    ma = relabel(T["alt"]) if "altid" in what else {v: v for v in T["alt"]}
    sc["tab2"] = dict(obs=[mo[T["obs"][r]] for r in frm], ind=[mi[T["ind"][r]] for r in frm],
                      alt=[ma[T["alt"][r]] for r in frm], ch=[T["ch"][r] for r in frm],
                      x=[[c[r] for r in frm] for c in T["x"]])
    M2 = json.loads(json.dumps(M))
    for s in M2["spec"]:
        s["g"] = [[ma[a] for a in g] for g in s["g"]]
        if not isinstance(s["e"], str):
            s["e"] = [[ma[a] for a in i] if isinstance(i, list) else ma[i] for i in s["e"]]
    M2["nests"] = [[ma[a] for a in nn] for nn in M["nests"]]
    i1 = list(dict.fromkeys(T["ind"]))
    i2 = list(dict.fromkeys(T["ind"][r] for r in frm))
    M2["draws"] = [[d[i1.index(i)] for i in i2] for d in M["draws"]]
    sc["M2"], sc["from"], sc["what"] = M2, [r + 1 for r in frm], sorted(what)
    sc["index"] = None
    if "index" in what:
        sc["index"] = rng.choice([odd_index(rng, n), odd_index(rng, n), list(range(n))[::-1],
                                  ["r%d" % j for j in range(n)], [7] * n])
    cols = ["obs_id", "alt_id", "choice", "ind_id"] + ["x%d" % (q + 1) for q in range(len(T["x"]))]
    rng.shuffle(cols)
    sc["order"] = cols if "cols" in what else None
    sc["long"] = rng.choice([1, 2, 2] + [0] * 17)
    sc["file"] = rng.random() < .1
    sc["text"] = not sc["long"] and rng.random() < .1
    sc["floats"] = not sc["long"] and not sc["text"] and rng.random() < .1
    sc["fit"] = 0
    if t != "Mixed" and k % 2 == 0:
        sc["fit"] = 1
        sc["ridge"] = "0" if t == "Nested" else "0.8"
        sc["pr"] = rng.random() < .3
        if t == "Nested":
            sc["fit"] = 0
    return sc


MAKE = dict(P11=(mk_extreme, run_extreme), P15=(mk_weights, run_weights),
            P23=(mk_panel, run_panel), P28=(mk_rearrange, run_rearrange))
COUNT = {"P11": (1600, 9000), "P15": (420, 2500), "P23": (400, 3000), "P28": (630, 4000)}


def run(sc):
    return MAKE[sc["prop"]][1](sc)


def scenarios(prop, tier, seed, gen):
    n = COUNT[prop][1 if tier == "thorough" else 0]
    for k in range(n):
        rng = random.Random("%s/%s/%s" % (prop, seed, k))

        def mk(rng=rng, k=k):
            sc = MAKE[prop][0](rng, k, tier)
            sc["prop"] = prop
            return sc
        yield "%s-%d" % (prop, k), mk
