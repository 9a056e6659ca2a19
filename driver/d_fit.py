"""P15-P20: fitting models, their results, and prediction."""
from common import *                                          # noqa
from d_model import base_scenario

METHODS = ["BFGS", "CG", "L-BFGS-B", "Newton-CG", "trust-ncg", "dogleg"]


def fit_scenario(rng, mtype, nobs=(6, 10), nalt=(2, 3), maxcoef=3, ndraw=None, **k):
    ndraw = ndraw or rng.choice([1, 3, 4, 4])
    sc = base_scenario(rng, mtype, nobs=nobs, nalt=nalt, maxcoef=maxcoef,
                       ndraw=ndraw, **k)
    sc["seed"] = rng.randint(1, 10 ** 6)
    sc["ndraw"] = ndraw
    if mtype == "Mixed":
        sc["M"]["draws"] = lib_draws(sc["tab"], sc["M"], ndraw, sc["seed"])
    return sc


def fit(model, sc, th=None, **kw):
    """fit_mle on the scenario's arguments"""
    M = sc["M"]
    a = dict(print_res=bool(len(sc["tab"]["obs"]) % 2))
    if sc["ridge"] != "0":
        a["ridge"] = float(sc["ridge"])
    if any(v != "1" for v in sc["w"]):
        a["weights"] = np.array([float(v) for v in sc["w"]])
    if sc.get("cpos"):
        a["constrained_pos"] = [p - 1 for p in sc["cpos"]]
    for k in ("method", "maxiter", "loss_tol", "gradient_tol"):
        if k in sc:
            a[k] = sc[k]
    a.update(kw)
    th = sc["th"] if th is None else th
    if M["type"] == "Mixed":
        return model.fit_mle(theta(th), sc["ndraw"], seed=sc["seed"], **a)
    if sc.get("split"):
        nn, ns, ni, nb, nm = counts(M, len(set(sc["tab"]["alt"])))
        v = theta(th)
        s = dict(init_coefs=v[ns + ni:])
        if ns:
            s["init_shapes"] = v[:ns]
        if ni:
            s["init_intercepts"] = v[ns:ns + ni]
        a.update(s)
        return model.fit_mle(None, **a)
    return model.fit_mle(theta(th), **a)


def tolerances(rng, sc):
    """convergence tolerances, and the gradient a successful fit may leave"""
    sc["tol"] = "0.0001"
    # these two stop on the size of the step or of the improvement
    loose = sc["method"] in ("L-BFGS-B", "Newton-CG")
    if loose:
        sc["tol"] = "0.001"
    r = rng.random()
    if loose or r < .5:
        sc["loss_tol"], sc["gradient_tol"] = 1e-13, 1e-7
    elif r < .8:            # the others stop on the gradient alone
        sc["loss_tol"], sc["gradient_tol"] = rng.choice([.01, .05, 1.0]), 1e-6


def no_maximum(err, sc):
    """a singular second-derivative matrix; without ridge, parameters that ran away"""
    return err.startswith("LinAlgError") or (
        sc.get("ridge", "0") == "0" and "infs or NaNs" in err)


def pairs(s):
    if s is None:
        return []
    return [[str(k), num(v)] for k, v in zip(list(s.index), list(s.values))]


# ---------------------------------------------------------------- labels ----
def user_labels(sc):
    """The labels of the scenario as the specification reads them."""
    T, M = sc["tab"], sc["M"]
    alts = sorted(set(T["alt"]))
    spec, names = [], []
    for s in M["spec"]:
        e = s["e"]
        form = e if isinstance(e, str) else "list"
        items = [] if isinstance(e, str) else [
            dict(one=0 if isinstance(i, list) else 1,
                 alts=list(i) if isinstance(i, list) else [i]) for i in e]
        spec.append(dict(var=vname(M, s["v"]), form=form, items=items))
        if M.get("named"):
            names.append(dict(var=vname(M, s["v"]),
                              n=[nm for nm in sc["names"][vname(M, s["v"])]]))
    ni = [] if M.get("noinames") else int_names(T, M)
    ns = [] if M.get("nosnames") else shape_names(T, M)
    return dict(spec=spec, names=names, nest=nest_names(M),
                shape=ns, int=ni)


def run_labels(sc):
    T, M = sc["tab"], sc["M"]
    kw = {}
    if M.get("named"):
        form = {vname(M, s["v"]): s["e"] for s in M["spec"]}
        order = sc["name_order"]
        kw["names"] = OD((v, sc["names"][v][0] if form[v] == "all_same" else
                          list(sc["names"][v])) for v in order)
        flat = [n for s in M["spec"] for n in sc["names"][vname(M, s["v"])]]
        if M["type"] == "Mixed":
            kw["mixing_vars"] = [flat[p - 1] for p in M["mix"]]
    out = dict(params=[], coefs=[], intercepts=[], shapes=[], nests=[], index=[])

    def op():
        m = build(T, M, **kw)
        if sc.get("refit"):
            fit(m, sc, th=sc["refit"])
        fit(m, sc)
        return m
    sc["maxiter"] = 0
    m, err = guarded(op)
    if no_maximum(err, sc):
        return []
    if not err:
        out = dict(params=pairs(m.params), coefs=pairs(m.coefs),
                   intercepts=pairs(m.intercepts), shapes=pairs(m.shapes),
                   nests=pairs(m.nests))
        ix = [m.gradient.index, m.standard_errors.index, m.tvalues.index,
              m.pvalues.index, m.robust_std_errs.index, m.robust_t_stats.index,
              m.robust_p_vals.index, m.summary.index]
        for f in ("hessian", "cov", "fisher_information", "robust_cov"):
            ix += [getattr(m, f).index, getattr(m, f).columns]
        ix.append(m.conf_int(return_df=True).index)
        out["index"] = [[str(x) for x in i] for i in ix]
    return [dict(kind="labels", err=err, tab=T, M=clean_model(M), th=sc["th"],
                 L=user_labels(sc), out=out)]


# ------------------------------------------------------------- inference ----
def cols2(a):
    a = np.asarray(a, dtype=float)
    if a.ndim == 1:
        return [nums(a)]
    return [nums(a[:, k]) for k in range(a.shape[1])]


def statsmodels_tables(m, lev):
    """The cells of the statsmodels summary: parameters, statistics, labels."""
    res, err = guarded(m.get_statsmodels_summary, **lev)
    if err:
        return [["refused: " + err]], [], []
    body = [[str(c).strip() for c in row] for row in res.tables[1].data][1:]
    top = {}
    for row in res.tables[0].data:
        cells = [str(c).strip() for c in row]
        top.update(zip(cells[0::2], cells[1::2]))
    keys = ["No. Observations:", "Df Residuals:", "Df Model:", "Pseudo R-squ.:",
            "Pseudo R-bar-squ.:", "Log-Likelihood:", "LL-Null:", "AIC:", "BIC:"]
    return ([row[1:] for row in body], [top.get(k, "absent").replace(",", "") for k in keys],
            [row[0] for row in body])


def run_inference(sc):
    T, M = sc["tab"], sc["M"]
    m = build(T, M)
    _, err = guarded(fit, m, sc)
    if no_maximum(err, sc):
        return []
    cp = set(sc.get("cpos", []))
    cp |= {k + 1 for k, n in enumerate(M["nests"]) if len(n) == 1}
    ev = dict(kind="inference", err=err, tab=T, M=clean_model(M), cpos=sorted(cp),
              alpha=sc["alpha"], nci=0, out={})
    if err:
        return [ev]
    names = [str(x) for x in m.params.index]
    sub = sc["sub"]
    kw = {}
    pos = list(range(1, len(names) + 1))
    if sub:
        pos = [p for p in sub if p <= len(names)] or [1]
        kw["coefs"] = [names[p - 1] for p in pos]
    lev = {} if sc.get("dflt") else {"alpha": float(sc["alpha"])}   # (0.05 is the default)
    kw.update(lev)
    if sc["df"]:
        f = m.conf_int(return_df=True, **kw)
        ci, cipos = mat(f.values), [names.index(str(i)) + 1 for i in f.index]
    else:
        ci, cipos = mat(m.conf_int(**kw)), pos
    ev["nci"] = len(pos)
    s = m.summary
    wanted = ["parameters", "std_err", "t_stats", "p_values", "robust_std_err",
              "robust_t_stats", "robust_p_values"]
    fs = m.fit_summary
    fk = ["Number of Parameters", "Number of Observations", "Null Log-Likelihood",
          "Fitted Log-Likelihood", "Rho-Squared", "Rho-Bar-Squared"]
    o = dict(params=nums(m.params), se=nums(m.standard_errors), t=nums(m.tvalues),
             p=nums(m.pvalues), rse=nums(m.robust_std_errs), rt=nums(m.robust_t_stats),
             rp=nums(m.robust_p_vals), hess=mat(m.hessian), cov=mat(m.cov),
             info=mat(m.fisher_information), rcov=mat(m.robust_cov),
             ll=num(m.log_likelihood), null=num(m.null_log_likelihood),
             aic=num(m.aic), bic=num(m.bic), rho=num(m.rho_squared),
             rhobar=num(m.rho_bar_squared), nobs=int(m.nobs), dfm=int(m.df_model),
             dfr=int(m.df_resid), ci=ci, cipos=cipos,
             summary=[[num(s[c].iloc[r]) for c in wanted] for r in range(len(s))],
             fitsum=[num(fs[k]) for k in fk] + [str(fs["Estimation Message"])],
             msg=str(m.estimation_message), llf=num(m.llf), bse=nums(m.bse),
             probs=cols2(m.long_fitted_probs), resid=cols2(m.long_residuals),
             chi=cols2(m.ind_chi_squareds), chisq=num(np.sum(m.chi_square)))
    o["sm"], o["smtop"], o["smlabels"], o["labels"], o["small"] = [], [], [], names, []
    if "statsmodels" in sc:
        o["small"] = mat(m.conf_int(**lev))
        o["sm"], o["smtop"], o["smlabels"] = statsmodels_tables(m, lev)
    ev["out"] = o
    return [ev]


# ----------------------------------------------------------- constraints ----
def run_constrained(sc):
    T, M = sc["tab"], sc["M"]
    m = build(T, M)
    _, err = guarded(fit, m, sc)
    if no_maximum(err, sc):
        return []
    cp = set(sc.get("cpos", []))
    cp |= {k + 1 for k, n in enumerate(M["nests"]) if len(n) == 1}
    ev = dict(kind="constrained", err=err, tab=T, M=clean_model(M), th=sc["th"],
              cpos=sorted(cp), w=sc["w"], ridge=sc["ridge"], tol=sc["tol"],
              method=sc["method"], out={})
    if not err:
        ev["out"] = dict(
            params=nums(m.params), se=nums(m.standard_errors), t=nums(m.tvalues),
            p=nums(m.pvalues), rse=nums(m.robust_std_errs), rt=nums(m.robust_t_stats),
            rp=nums(m.robust_p_vals), var=nums(np.diag(m.cov)),
            rvar=nums(np.diag(m.robust_cov)), success=1 if m.estimation_success else 0)
    return [ev]


# ------------------------------------------------------------ estimation ----
def run_estimation(sc):
    T, M = sc["tab"], sc["M"]
    m = build(T, M)
    _, err = guarded(fit, m, sc)
    if no_maximum(err, sc):
        return []
    cp = {k + 1 for k, n in enumerate(M["nests"]) if len(n) == 1} | set(sc.get("cpos", []))
    ev = dict(kind="estimation", err=err, tab=T, M=clean_model(M), th=sc["th"],
              cpos=sorted(cp), w=sc["w"], ridge=sc["ridge"], tol=sc["tol"], same=[],
              method=sc["method"], out={})
    if err:
        return [ev]
    p, c = np.asarray(m.long_fitted_probs), np.asarray(m.fitted_probs)
    if M["type"] == "Mixed":
        p, c = p.mean(axis=1), c.mean(axis=1)
    ev["out"] = dict(params=nums(m.params), ll=num(m.log_likelihood),
                     null=num(m.null_log_likelihood), probs=nums(p), chosen=nums(c),
                     grad=nums(m.gradient), success=1 if m.estimation_success else 0)
    for th, meth in sc.get("again", []):
        m2 = build(T, M)
        _, e2 = guarded(fit, m2, sc, th=th, method=meth, loss_tol=1e-13)
        if no_maximum(e2, sc):
            continue
        if e2:
            ev["err"] = e2
            break
        ev["same"].append(dict(params=nums(m2.params),
                               success=1 if m2.estimation_success else 0))
    if ev["M"]["type"] == "MNL" and sc.get("point"):
        m3 = build(T, M)
        r, e3 = guarded(fit, m3, sc, just_point=True)
        if e3:
            ev["err"] = e3
        else:
            ev["same"].append(dict(params=nums(r["x"]), success=1))
    return [ev]


# ------------------------------------------------------------ prediction ----
def run_predict(sc):
    T, M = sc["tab"], sc["M"]
    J = len(set(T["alt"]))
    own = dataframe(T)
    m = build(T, M, df=own)
    sc["maxiter"] = sc.get("maxiter", 0)
    _, err = guarded(fit, m, sc)
    if no_maximum(err, sc):
        return []
    ev = dict(kind="predict", err=err, tab=T, M=clean_model(M), calls=[], out={})
    if err:
        return [ev]
    fitted = nums(m.params)
    for c in sc["calls"]:
        T2 = c["tab"] or T
        kw = {}
        cols = c["cols"] or [fitted]
        draws = []
        if M["type"] == "Mixed":
            kw = dict(num_draws=c["ndraw"], seed=c["seed"])
            draws = lib_draws(T2, M, c["ndraw"], c["seed"])
        if c["cols"]:
            pl = [param_list(T2, M, theta(col)) for col in c["cols"]]
            if c["matrix"]:
                kw["param_list"] = [None if pl[0][k] is None else
                                    np.column_stack([q[k] for q in pl]) for k in range(4)]
            else:
                kw["param_list"] = pl[0]
        mode = c["mode"]
        if mode != "long":
            kw["choice_col"] = "choice"
        kw["return_long_probs"] = mode != "chosen"
        df = own if c.get("own") else dataframe(T2, order=c.get("order"), index=c.get("index"))
        if mode == "long" and c.get("nochoice"):
            del df["choice"]
        r, e = guarded(m.predict, as_file(df) if c.get("file") else df, **kw)
        call = dict(tab=T2, th=cols, draws=draws, mode=mode, long=[], chosen=[], err=e)
        if not e:
            if mode == "both":
                ok = isinstance(r, tuple) and len(r) == 2
                call["chosen"], call["long"] = (cols2(r[0]), cols2(r[1])) if ok else ([], [])
            elif isinstance(r, tuple):
                pass
            else:
                call[mode] = cols2(r)
        ev["calls"].append(call)
    ev["out"] = ev["calls"]
    ev["calls"] = ev["out"]
    del ev["out"]
    return [ev]


RUN = dict(P16=run_labels, P17=run_inference, P18=run_constrained, P19=run_estimation,
           P20=run_predict)


def resplit(rng, T):
    """the same alternatives, row by row, split into other observations"""
    n = len(T["alt"])
    for _ in range(50):
        cuts, start = [0], 0
        while start < n:
            top = start
            while top < n and T["alt"][top] not in T["alt"][start:top]:
                top += 1
            start += rng.randint(min(2, top - start), top - start)
            cuts.append(start)
        obs, ch = [], []
        ids = rng.sample(range(1, 90 + len(cuts)), len(cuts))
        for a, b in zip(cuts, cuts[1:]):
            obs += [ids[len(set(obs))]] * (b - a)
            c = rng.randrange(b - a)
            ch += [int(j == c) for j in range(b - a)]
        if obs != T["obs"]:
            break
    if len(set(T["ind"])) == len(set(T["obs"])):
        ind = list(obs)
    else:
        pool = {o: rng.randint(1, 3) for o in obs}
        ind = [pool[o] for o in obs]
    return dict(T, obs=obs, ch=ch, ind=ind, x=[list(c) for c in T["x"]])


def related(rng, T, M, kind):
    """new data standing in a close relation to the estimation data"""
    # alternatives the new data must offer somewhere
    t = M["type"]
    need = set(T["alt"])
    if t in ("MNL", "Nested", "Mixed") and all(s["e"] != "all_diff" for s in M["spec"]):
        need = {a for s in M["spec"] if s["e"] != "all_same" for g in s["g"] for a in g}
    n = len(T["alt"])
    oq = list(dict.fromkeys(T["obs"]))
    if kind == "resplit":
        return resplit(rng, T)
    if kind == "values":
        return dict(T, x=[[rval(rng) for _ in range(n)] for _ in T["x"]])
    if kind == "choices":
        ch = [0] * n
        for o in oq:
            ch[rng.choice([r for r in range(n) if T["obs"][r] == o])] = 1
        return dict(T, ch=ch)
    if kind == "renamed":
        m = dict(zip(oq, rng.sample(range(200, 300 + len(oq)), len(oq))))
        return dict(T, obs=[m[o] for o in T["obs"]])
    keep = list(oq)
    rng.shuffle(keep)
    if kind == "subset":
        keep = keep[:rng.randint(1, len(keep))]
        while need - {a for a, o in zip(T["alt"], T["obs"]) if o in keep}:
            keep.append(rng.choice([o for o in oq if o not in keep]))
    rows = [r for o in keep for r in range(n) if T["obs"][r] == o]
    if kind == "fewer":          # one alternative is nowhere available
        if not set(T["alt"]) - need:
            return related(rng, T, M, "resplit")
        gone = rng.choice(sorted(set(T["alt"]) - need))
        left = [o for o in keep if sum(1 for r in rows if T["obs"][r] == o
                                       and T["alt"][r] != gone) > 0]
        rows = [r for r in rows if T["obs"][r] in left and T["alt"][r] != gone]
        if not rows:
            return None
    R = dict(obs=[T["obs"][r] for r in rows], alt=[T["alt"][r] for r in rows],
             ch=[T["ch"][r] for r in rows], ind=[T["ind"][r] for r in rows],
             x=[[c[r] for r in rows] for c in T["x"]])
    for o in set(R["obs"]):
        q = [r for r in range(len(rows)) if R["obs"][r] == o]
        if not any(R["ch"][r] for r in q):
            R["ch"][q[0]] = 1
    return R


def make(rng, prop, k, tier):
    big = tier == "thorough"
    t = TYPES[k % 7]
    large = 14 <= k < 28 or big and k % 50 == 3     # long tables, many alternatives
    if prop == "P16":
        sc = fit_scenario(rng, t, nobs=(12, 20), nalt=(2, 11), maxcoef=14) if large else \
            fit_scenario(rng, t, nobs=(4, 8), nalt=(2, 4), maxcoef=6, few=True)
        M = sc["M"]
        sc["ridge"] = "3.7" if rng.random() < .9 else "0"
        M["noinames"] = int(rng.random() < .4)
        M["nosnames"] = int(rng.random() < .4)
        style = rng.choice(["b", "sigma", "same"])
        sc["names"], used = {}, 0
        for s in M["spec"]:
            v = vname(M, s["v"])
            sc["names"][v] = []
            for g in s["g"]:
                used += 1
                sc["names"][v].append(
                    "Sigma c%d" % used if style == "sigma" and rng.random() < .5 else
                    "%s of %s" % (v, "-".join(map(str, g))) if style == "b" else "c%d" % used)
        sc["name_order"] = list(sc["names"])
        rng.shuffle(sc["name_order"])
        if rng.random() < .4:
            sc["refit"] = rand_theta(rng, sc["tab"], M)
        sc["split"] = t in ("Asym", "Cloglog", "Scobit", "Uneven") and rng.random() < .5
        return sc
    if prop == "P17":
        sc = fit_scenario(rng, t, nobs=(20, 40), nalt=(2, 6), maxcoef=6, icpt=False) \
            if large else fit_scenario(rng, t, nobs=(5, 9), nalt=(2, 3), maxcoef=3, icpt=False)
        sc["ridge"] = rng.choice(["0", "0.8", "3.7"])
        # without a ridge small tables need not have a finite maximum
        sc["maxiter"] = rng.choice([0, 0, 3, 40] if sc["ridge"] != "0" else [0, 0, 2])
        sc["method"] = rng.choice(["BFGS", "BFGS", "L-BFGS-B", "CG"])
        n = nparam(sc["tab"], sc["M"])
        sc["cpos"] = sorted(rng.sample(range(1, n + 1), rng.choice([0, 0, 1, min(2, n)])))
        if rng.random() < .3:
            rng.shuffle(sc["cpos"])
        sc["alpha"] = rng.choice(["0.05", "0.1", "0.01", "0.32"])
        sc["dflt"] = sc["alpha"] == "0.05" and rng.random() < .7
        if rng.random() < .4:
            sc["statsmodels"] = 1
        sc["df"] = rng.random() < .5
        sc["sub"] = rng.sample(range(1, n + 1), rng.randint(1, n)) if rng.random() < .4 else []
        if rng.random() < .3:
            sc["w"] = unit_weights(rng, sc["tab"], sc["M"])
        return sc
    if prop == "P18":
        sc = fit_scenario(rng, t, nobs=(20, 30) if large else (8, 12), nalt=(2, 3), maxcoef=3,
                          icpt=t != "Nested")
        meth = METHODS[(k // 7) % len(METHODS)]
        sc["method"] = meth
        sc["ridge"] = "0" if t == "Nested" and rng.random() < .6 else rng.choice(["0.5", "1.5"])
        sc["maxiter"] = 400
        tolerances(rng, sc)
        n = nparam(sc["tab"], sc["M"])
        sc["M"]["same"] = int(t != "Mixed" and rng.random() < .3)
        # at most all but one
        c = rng.choice([1, 1, 2, 3, n])
        sc["cpos"] = rng.sample(range(1, n + 1), min(c, n))
        if t == "Nested" and rng.random() < .4:
            sc["cpos"] = []
        if rng.random() < .3:
            sc["w"] = unit_weights(rng, sc["tab"], sc["M"], "frac")
        return sc
    if prop == "P19":
        sc = fit_scenario(rng, t, nobs=(20, 35), nalt=(2, 5), maxcoef=5, icpt=False) \
            if large else fit_scenario(rng, t, nobs=(8, 12), nalt=(2, 3), maxcoef=3, icpt=False)
        sc["method"] = rng.choice(["BFGS"] * 4 + ["CG", "L-BFGS-B", "Newton-CG", "trust-ncg"])
        sc["ridge"] = "0" if t == "Nested" else rng.choice(["0", "0.3", "1"])
        sc["maxiter"] = rng.choice([400, 400, 5])
        tolerances(rng, sc)
        if rng.random() < .3:
            sc["w"] = unit_weights(rng, sc["tab"], sc["M"], "frac")
        n = nparam(sc["tab"], sc["M"])
        if rng.random() < .35:
            sc["cpos"] = rng.sample(range(1, n + 1), rng.choice([1, 1, min(2, n)]))
        elif t == "MNL" and sc["ridge"] != "0":
            sc["maxiter"] = 400
            sc["again"] = [(rand_theta(rng, sc["tab"], sc["M"]),
                            rng.choice(["BFGS", "CG", "L-BFGS-B", "Newton-CG"]))
                           for _ in range(2)]
            sc["point"] = 1
        return sc
    if prop == "P20":
        sc = fit_scenario(rng, t, nobs=(12, 24), nalt=(2, 7), maxcoef=6) if large else \
            fit_scenario(rng, t, nobs=(4, 6), nalt=(2, 3), maxcoef=3, few=True)
        sc["ridge"] = rng.choice(["2", "3.7"])
        sc["maxiter"] = rng.choice([0, 3])
        T, M = sc["tab"], sc["M"]
        alts = sorted(set(T["alt"]))
        sc["calls"] = []
        for j in range(3):
            c = dict(tab=None, cols=None, matrix=0, mode=["both", "long", "chosen"][(k + j) % 3])
            if j == 0 and t == "Mixed":
                c["ndraw"], c["seed"] = sc["ndraw"], sc["seed"]
            else:
                c["ndraw"], c["seed"] = rng.randint(1, 4), rng.randint(1, 10 ** 6)
            if j:
                kind = rng.choice(["resplit", "values", "choices", "renamed", "order", "subset",
                                   "fewer"])
                if rng.random() < .6:
                    c["tab"] = constant(M, related(rng, T, M, kind))
                elif rng.random() < .75:
                    one = not large and rng.random() < .2
                    c["tab"] = rand_table(rng, nobs=rng.randint(20, 40) if large else
                                          1 if one else rng.randint(len(alts), 5), alts=alts,
                                          ncol=len(T["x"]), avail=rng.choice([.6, .8, 1.0]),
                                          panel=t == "Mixed",
                                          all_chosen=not one and rng.random() < .5)
                    constant(M, c["tab"])
                if rng.random() < .6 and t != "Mixed":
                    c["cols"] = [rand_theta(rng, T, M)]
                    if t != "Nested" and rng.random() < .7:
                        c["matrix"] = 1
                        c["cols"] += [rand_theta(rng, T, M) for _ in range(
                            rng.randint(0, 7 if large else 2))]
            if rng.random() < .4:
                o = ["obs_id", "alt_id", "choice", "ind_id"] + [
                    "x%d" % (q + 1) for q in range(len(T["x"]))]
                rng.shuffle(o)
                c["order"] = o
            if rng.random() < .4:
                n = len((c["tab"] or T)["obs"])
                c["index"] = odd_index(rng, n)
            c["nochoice"] = rng.random() < .5
            c["file"] = rng.random() < .1
            if not c["tab"] and rng.random() < .5:      # the very table of the estimation
                c["own"], c["nochoice"] = 1, False
                if rng.random() < .6 and t == "Mixed":
                    c["ndraw"] = sc["ndraw"]
            sc["calls"].append(c)
        return sc


COUNT = {"P16": (840, 6000), "P17": (420, 3000), "P18": (168, 1500), "P19": (280, 2000),
         "P20": (840, 5000)}


def run(sc):
    return RUN[sc["prop"]](sc)


def scenarios(prop, tier, seed, gen):
    n = COUNT[prop][1 if tier == "thorough" else 0]
    for k in range(n):
        rng = random.Random("%s/%s/%s" % (prop, seed, k))

        def mk(rng=rng, k=k):
            sc = make(rng, prop, k, tier)
            sc["prop"] = prop
            return sc
        yield "%s-%d" % (prop, k), mk
