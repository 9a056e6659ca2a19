"""P08-P14: evaluating models at chosen parameter vectors."""
from common import *                                          # noqa


def base_scenario(rng, mtype, nobs=(3, 5), nalt=(2, 4), maxcoef=4, ndraw=None,
                  weights=False, ridge=False, panel=None, icpt=True, few=False):
    J = rng.randint(*nalt)
    alts = rand_alts(rng, J)
    n = max(rng.randint(*nobs), J)
    few = few and rng.random() < .15        # alternatives that nobody chose
    if few and n < 8:
        n = rng.choice([1, 2, n])
    T = rand_table(rng, nobs=n, alts=alts, ncol=rng.randint(1, 3),
                   avail=rng.choice([.6, .8, 1.0]), all_chosen=not few,
                   panel=(mtype == "Mixed" and rng.random() < .8)
                   if panel is None else panel)
    M = rand_model(rng, T, mtype, maxcoef=maxcoef)
    if icpt and rng.random() < .15:
        M["icpt"] = rng.choice([s["v"] for s in M["spec"]])
        constant(M, T)
    attach_draws(rng, T, M, ndraw or rng.choice([1, 2, 3, 3]))
    sc = dict(tab=T, M=M, th=rand_theta(rng, T, M))
    sc["w"] = unit_weights(rng, T, M) if weights else ["1"] * len(T["obs"])
    sc["ridge"] = rng.choice(["0", num(round(rng.uniform(.1, 2), 2))]) if ridge else "0"
    return sc


def index_values(T, M, beta):
    V = []
    for r in range(len(T["alt"])):
        v, k = 0., 0
        for s in M["spec"]:
            for g in s["g"]:
                if T["alt"][r] in g:
                    v += beta[k] * float(T["x"][s["v"] - 1][r])
                k += 1
        V.append(v)
    return V


def widen(rng, sc):
    """Spread the parameters over the range in which the formulas can still be
    evaluated in double precision: steep shapes, small dissimilarities, large
    utilities and intercepts."""
    T, M = sc["tab"], sc["M"]
    t = M["type"]
    J = len(set(T["alt"]))
    nn, ns, ni, nb, nm = counts(M, J)
    u = lambda lo, hi: num(round(rng.uniform(lo, hi), 3))           # noqa
    if rng.random() < .5:       # variables of quite different sizes
        for c in range(len(T["x"])):
            f = 10 ** rng.uniform(-2, 2)
            T["x"][c] = [num(float("%.4g" % (f * float(v)))) for v in T["x"][c]]
        constant(M, T)
    while True:
        steep = rng.choice([1, 1, 2, 3])
        nests = [u(-2 * steep, 2 * steep) for _ in range(nn)]
        shapes = [u(-1.5 * steep, (2.5 if t != "Asym" else 1.5) * steep) for _ in range(ns)]
        ints = [u(-20, 20) if rng.random() < .3 else u(-2, 2) for _ in range(ni)]
        beta = [rng.uniform(-1, 1) for _ in range(nb)]
        V = index_values(T, M, beta)
        top = max(abs(v) for v in V) or 1.
        goal = {"MNL": 250, "Asym": 40, "Scobit": rng.choice([12, 12, 35]), "Uneven": 25,
                "Nested": 40, "Mixed": 60, "Cloglog": 0}[t]
        goal *= rng.choice([1, .5, .2, .05])
        if t == "Cloglog":
            up, dn = max(max(V), 1e-9), max(-min(V), 1e-9)
            f = min(5.5 / up, rng.choice([10., 10., 36.]) / dn) * rng.choice([1, .8, .5])
        else:
            f = goal / top
        beta = [num(float("%.5g" % (b * f))) for b in beta]
        spread = [u(-1, 1) for _ in range(nm)]
        th = nests + shapes + ints + beta + spread
        if t != "Asym" or not near_kink(T, M, th):
            sc["th"] = th
            return


EMPTY = dict(probs=[], ll="nan", grad=[], hess=[], info=[])


def event(sc, want, out, err, route):
    o = dict((k, (out or {}).get(k, EMPTY[k])) for k in want)
    M = sc["M"]
    cpos = [k + 1 for k, n in enumerate(M["nests"]) if len(n) == 1] \
        if route == "fit" else []
    return dict(cpos=cpos, tab=sc["tab"], M=clean_model(sc["M"]), th=sc["th"], w=sc["w"],
                ridge=sc["ridge"], want=want, out=o, err=err, route=route)


def via_fit(sc, want):
    """Evaluate through the public fit_mle with zero iterations."""
    T, M = sc["tab"], sc["M"]
    ridge = None if sc["ridge"] == "0" else float(sc["ridge"])
    model = build(T, M)
    kw = {}
    if M["type"] == "Mixed":
        kw = dict(num_draws=len(M["draws"][0][0]), seed=sc["seed"])
    model.fit_mle(theta(sc["th"]), maxiter=0, print_res=False, ridge=ridge, **kw)
    p = model.long_fitted_probs
    if M["type"] == "Mixed":
        p = np.asarray(p).mean(axis=1)
    return dict(probs=nums(p), ll=num(model.log_likelihood),
                grad=nums(model.gradient.values), hess=mat(model.hessian.values),
                info=mat(model.fisher_information.values))


def via_est(sc, want):
    """Evaluate through the estimation object, with weights and chosen draws."""
    T, M = sc["tab"], sc["M"]
    ridge = None if sc["ridge"] == "0" else float(sc["ridge"])
    w = None if all(v == "1" for v in sc["w"]) else sc["w"]
    th = theta(sc["th"])
    e = estimator(build(T, M), T, M, th, w=w, ridge=ridge)
    out = {}
    if "probs" in want:
        p = np.asarray(e.convenience_calc_probs(th)[1])
        out["probs"] = nums(p.mean(axis=1) if M["type"] == "Mixed" else p)
    if "ll" in want:
        out["ll"] = num(e.convenience_calc_log_likelihood(th))
    if "grad" in want:
        out["grad"] = nums(e.convenience_calc_gradient(th))
    if "hess" in want:
        out["hess"] = mat(e.convenience_calc_hessian(th))
    if "info" in want:
        out["info"] = mat(e.convenience_calc_fisher_approx(th))
    return out


def via_predict(sc, want):
    """Evaluate through predict with an explicit parameter list."""
    T, M = sc["tab"], sc["M"]
    other = sc.get("est_tab", T)        # estimation data may be another table
    model = build(other, M)
    pl = param_list(T, M, theta(sc["th"]))
    kw = {}
    if M["type"] == "Mixed":
        # parameters are taken from a fit; a ridge keeps its matrices invertible
        model.fit_mle(theta(sc["th"]), maxiter=0, print_res=False, num_draws=4,
                      seed=5, ridge=3.7)
        kw = dict(num_draws=len(M["draws"][0][0]), seed=sc["seed"])
        pl = None
    return dict(probs=nums(model.predict(dataframe(T), param_list=pl, **kw)))


ROUTES = dict(fit=via_fit, est=via_est, predict=via_predict)


def seed_draws(rng, sc, ndraw=3):
    """Let the library draw, for routes that do not take draws."""
    M = sc["M"]
    if M["type"] == "Mixed":
        sc["seed"] = rng.randint(1, 10 ** 6)
        M["draws"] = lib_draws(sc["tab"], M, ndraw, sc["seed"])


def run_draws(sc):
    from pylogit import mixed_logit_calcs as mlc

    def get(seed):
        return [mat(a) for a in mlc.get_normal_draws(sc["nind"], sc["ndraw"], sc["nvar"], seed=seed)]

    def op():
        a = get(sc["seed"])
        np.random.rand(sc["ndraw"])
        return dict(draws=a, again=get(sc["seed"]), other=get(sc["seed"] + 1))
    o, err = guarded(op)
    return [dict(sc, err=err, out=o or {})]


def run(sc):
    if sc is None:
        return []
    if "nvar" in sc:
        return run_draws(sc)
    want, route = sc["want"], sc["route"]
    out, err = guarded(ROUTES[route], sc, want)
    if route == "fit" and err.startswith("LinAlgError"):
        # fit_mle inverts the second-derivative matrix, which is singular for
        # this data; evaluate the same point through the estimation object
        route = "est"
        out, err = guarded(ROUTES[route], sc, want)
    ev = event(sc, want, out, err, route)
    if sc.get("src"):
        ev["src"] = sc["src"]
    return [ev]


def far_off(rng, t, sc):
    """Complementary log-log and scobit models some of whose utilities lie
    beyond the border at which the library's transformations level off."""
    T, M = sc["tab"], sc["M"]
    nn, ns, ni, nb, nm = counts(M, len(set(T["alt"])))
    u = lambda lo, hi: num(round(rng.uniform(lo, hi), 3))           # noqa
    sign = -1 if t == "Cloglog" else 1
    for _ in range(200):
        beta = [rng.uniform(-1, 1) for _ in range(nb)]
        V = [sign * v for v in index_values(T, M, beta)]
        f = rng.uniform(40, 60) / (max(V) or 1.)
        if 0 < f < 1e4 and min(V) * f > -5:
            break
    else:
        f = 1.
    sc["th"] = [u(-.5, .5) for _ in range(ns)] + [u(-2, 2) for _ in range(ni)] + \
        [num(float("%.5g" % (b * f))) for b in beta]
    sc["route"] = "est"
    return sc


def remote(rng, sc):
    """Let some unchosen alternatives be out of the question altogether: steep
    shapes or very low utilities."""
    T, M = sc["tab"], sc["M"]
    t = M["type"]
    nn, ns, ni, nb, nm = counts(M, len(set(T["alt"])))
    u = lambda lo, hi: num(round(rng.uniform(lo, hi), 3))           # noqa
    shaped = t in ("Scobit", "Uneven")
    shapes = [u(3, 5.5) if shaped and rng.random() < .5 else u(-1, 1) for _ in range(ns)]
    beta = [rng.uniform(-1, 1) for _ in range(nb)]
    V = index_values(T, M, beta)
    low = -min(min(V), -1e-3)
    f = rng.choice([8., 15., 40.]) / low if shaped else rng.uniform(500, 900) / low
    if t == "Asym":
        f = rng.uniform(300, 600) / low
    f = min(f, (30. if shaped else 150.) / max(max(V), 1e-3))
    V = [v * f for v in V]
    for o in sorted(set(T["obs"])):
        rows = [r for r in range(len(V)) if T["obs"][r] == o]
        best = max(rows, key=lambda r: V[r])
        for r in rows:
            T["ch"][r] = int(r == best)
    sc["th"] = shapes + [u(-2, 2) for _ in range(ni)] + [num(float("%.5g" % (b * f))) for b in beta]


def scen(rng, prop, k, tier):
    big = tier == "thorough"
    nobs = (3, 8) if big else (3, 5)
    large = 14 <= k < 28 or big and k % 50 == 3      # long tables, many alternatives
    wide = dict(nobs=(25, 45), nalt=(2, 11), maxcoef=12) if large else \
        dict(nobs=(2, 12) if big else (2, 7), nalt=(2, 5), maxcoef=6)
    if prop == "P08":
        t = LOGITS[k % 5]
        sc = base_scenario(rng, t, few=True, **wide)
        sc["want"], sc["route"] = ["probs"], rng.choice(["fit", "est", "predict"])
    elif prop == "P09":
        sc = base_scenario(rng, "Nested", few=True, **wide)
        sc["want"], sc["route"] = ["probs"], rng.choice(["fit", "est", "predict"])
        if k % 6 == 0:     # dissimilarity parameters equal to one
            sc["th"][:len(sc["M"]["nests"])] = ["40"] * len(sc["M"]["nests"])
    elif prop == "P10" and k % 20 == 19:
        n = rng.choice([1, 3, 12, 20, 25])
        return dict(nvar=rng.randint(1, 4), nind=n, seed=rng.randint(1, 2 ** 31),
                    ndraw=rng.choice([1, 2, 7] if n < 12 else [3, 20, 30]))
    elif prop == "P10":
        sc = base_scenario(rng, "Mixed", nobs=(3, 12) if big else (3, 6), nalt=(2, 4),
                           ndraw=rng.randint(1, 5), few=True) if not large else \
            base_scenario(rng, "Mixed", nobs=(8, 14), nalt=(2, 6), ndraw=rng.randint(10, 40))
        sc["want"] = ["probs"]
        sc["route"] = ["est", "fit", "predict"][k % 3]
        if sc["route"] != "est":
            seed_draws(rng, sc, rng.randint(10, 40) if large else rng.randint(1, 5))
    else:
        t = TYPES[k % 7]
        sc = base_scenario(rng, t, nobs=(16, 25) if large else nobs, nalt=(2, 6 if large else 4),
                           maxcoef=5 if large else 3, weights=k % 3 == 0, ridge=True,
                           ndraw=10 if large and prop == "P12" else None, few=True)
        if prop == "P12":
            sc["want"] = ["ll"]
        elif prop == "P13":
            sc["want"] = ["grad"]
        elif prop == "P14":
            sc["want"] = ["hess"] if t in ("Nested", "Mixed") else ["hess", "info"]
        if all(v == "1" for v in sc["w"]) and rng.random() < .5:
            sc["route"] = "fit"
            seed_draws(rng, sc)
        else:
            sc["route"] = "est"
    if prop == "P08" and k % 60 in (2, 3):
        far_off(rng, t, sc)
    elif prop in ("P12", "P13", "P14") and k % 12 in (1, 5, 9) and \
            (t in ("Scobit", "Uneven") or k % 12 == 5 and t in ("MNL", "Asym")):
        remote(rng, sc)
        sc["route"] = "est"
    elif (k // 7) % 5 < 2:
        widen(rng, sc)
        if prop in ("P08", "P09") and rng.random() < .5:
            sc["route"] = "predict"
        else:
            sc["route"] = "est"
    return sc


COUNT = {"P08": (1200, 8000), "P09": (840, 6000), "P10": (600, 4000),
         "P12": (1190, 8000), "P13": (840, 5000), "P14": (700, 4000)}


def from_tlc(rng, g, prop):
    """a choice problem enumerated by spec/MC_Model.tla"""
    M = dict(g["M"])
    alts = sorted(set(g["tab"]["alt"]))
    M["spec"] = [dict(s, e="all_same" if len(s["g"]) == 1 and len(s["g"][0]) == len(alts)
                      and rng.random() < .5 else
                      [x[0] if len(x) == 1 and rng.random() < .5 else list(x) for x in s["g"]])
                 for s in M["spec"]]
    M["named"], M["salt"] = rng.randrange(2), rng.randrange(1000)
    T = g["tab"]
    sc = dict(tab=T, M=M, th=list(g["th"]), ridge="0", w=["1"] * len(T["obs"]), src="tlc",
              route="est")
    if M["type"] == "Asym" and near_kink(T, M, sc["th"]):
        return None
    if prop in ("P08", "P09"):
        sc["route"] = rng.choice(["est", "predict"])
    if prop in ("P12", "P13", "P14"):
        sc["w"] = unit_weights(rng, T, M)
        sc["ridge"] = rng.choice(["0", "0.5"])
    t = M["type"]
    sc["want"] = {"P12": ["ll"], "P13": ["grad"],
                  "P14": ["hess"] if t in ("Nested", "Mixed") else ["hess", "info"]}.get(
                      prop, ["probs"])
    return sc


TLC = dict(P08=(800, 8000), P09=(600, 4000), P10=(400, 3000), P12=(800, 8000),
           P13=(350, 4000), P14=(350, 4000))


def scenarios(prop, tier, seed, gen):
    from d_table import readgen
    big = 1 if tier == "thorough" else 0
    gs = readgen(gen, "MC_Model")
    pick = random.Random("%s/%s" % (prop, seed))
    for k, g in enumerate(gs if len(gs) <= TLC[prop][big] else pick.sample(gs, TLC[prop][big])):
        yield "%s-tlc%d" % (prop, k), (lambda k=k, g=g: from_tlc(
            random.Random("%s/%s/t%s" % (prop, seed, k)), g, prop))
    n = COUNT[prop][1 if tier == "thorough" else 0]
    for k in range(n):
        rng = random.Random("%s/%s/%s" % (prop, seed, k))
        yield "%s-%d" % (prop, k), (lambda rng=rng, k=k: scen(rng, prop, k, tier))
