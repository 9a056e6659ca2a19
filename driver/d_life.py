"""P21 (histories of operations) and P22 (callers' objects)."""
import contextlib
import io
import pickle
import signal

from common import *                                          # noqa
from d_model import base_scenario
import d_table

RESULTS = ["params", "coefs", "intercepts", "shapes", "nests", "gradient", "hessian", "cov",
           "robust_cov", "fisher_information", "standard_errors", "tvalues", "pvalues",
           "robust_std_errs", "robust_t_stats", "robust_p_vals", "summary", "fit_summary",
           "log_likelihood", "null_log_likelihood", "rho_squared", "rho_bar_squared", "aic",
           "bic", "fitted_probs", "long_fitted_probs", "long_residuals", "ind_chi_squareds",
           "chi_square", "nobs", "df_model", "df_resid", "estimation_message",
           "estimation_success", "llf", "bse"]


# --------------------------------------------------------- making results ----
def flat(name, x, out):
    """[name, value] pairs of any result"""
    if x is None:
        out.append([name, "None"])
    elif isinstance(x, pd.DataFrame):
        out.append([name, "frame %s" % (x.shape,)])
        for j, c in enumerate(x.columns):
            for i in range(len(x)):
                flat("%s[%s,%s]" % (name, x.index[i], c), x.iloc[i, j], out)
    elif isinstance(x, pd.Series):
        for i in range(len(x)):
            flat("%s[%s]" % (name, x.index[i]), x.iloc[i], out)
    elif isinstance(x, np.ndarray):
        out.append([name, "array %s" % (x.shape,)])
        for i, v in enumerate(x.ravel()):
            flat("%s.%d" % (name, i), v, out)
    elif isinstance(x, (bool, np.bool_)):
        out.append([name, str(bool(x))])
    elif isinstance(x, (int, float, np.number)):
        out.append([name, num(x)])
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            flat("%s.%d" % (name, i), v, out)
    else:
        out.append([name, str(x)[:200]])
    return out


class Session(object):
    """Two definitions over one table, with everything the caller holds."""

    def __init__(self, sc):
        self.sc = sc
        T = sc["tab"]
        self.mod = {}
        self.saved = None
        self.boots = {}
        self.held = OD()
        self.icpt = {}
        self.df = dataframe(T, index=sc.get("index"), order=sc.get("order"))
        self.df2 = dataframe(sc["tab2"])
        self.held["data"] = self.df
        self.held["new-data"] = self.df2
        self.kw, self.fits, self.given = {}, {}, {}
        for d in (1, 2):
            D = sc["defs"][d - 1]
            M = D["M"]
            kw = model_kwargs(T, M)
            kw["specification"] = spec_dict(M)
            if D.get("icpt"):
                a = sorted(set(T["alt"]))[:-1]
                kw["specification"]["intercept"] = [[a[0]]] if len(a) == 1 else list(a)
                if "names" in kw:
                    kw["names"]["intercept"] = ["asc %s" % x for x in a]
            self.kw[d] = kw
            for k in kw:
                if isinstance(kw[k], (dict, list)):
                    self.held["%s-%d" % (k, d)] = kw[k]
            for f in (1, 2):
                A = D["fits"][f - 1]
                a = dict(print_res=False, maxiter=A["maxiter"], ridge=A["ridge"],
                         method=A["method"])
                if A["w"]:
                    a["weights"] = np.array([float(v) for v in A["w"]])
                if A["cpos"]:
                    a["constrained_pos"] = [p - 1 for p in A["cpos"]]
                if M["type"] == "Mixed":
                    a["num_draws"], a["seed"] = A["ndraw"], A["seed"]
                init = self.pad(d, A["th"])
                self.fits[d, f] = (init, a)
                self.held["init_vals-%d-%d" % (d, f)] = init
                self.held["fit-options-%d-%d" % (d, f)] = a
            g = param_list(T, M, self.pad(d, D["given"]))
            if D.get("icpt"):
                n = len(D["given"]) - sum(counts(M, len(set(T["alt"])))[3:])
                v = self.pad(d, D["given"])
                g[0] = v[n:]
            self.given[d] = g
            self.held["param_list-%d" % d] = g

    def pad(self, d, th):
        """the initial values, with those of the intercepts"""
        D = self.sc["defs"][d - 1]
        v = theta(th)
        if D.get("icpt"):
            n = len(set(self.sc["tab"]["alt"])) - 1
            nm = len(D["M"]["mix"])
            v = np.concatenate([v[:len(v) - nm], np.linspace(-.2, .3, n), v[len(v) - nm:]])
        return v

    def type(self, d):
        return self.sc["defs"][d - 1]["M"]["type"]

    # -- the operations -------------------------------------------------------
    def create(self, o):
        d = o["d"]
        self.boots.pop(o["m"], None)
        self.mod[o["m"]] = (d, pylogit.create_choice_model(
            self.df, alt_id_col="alt_id", obs_id_col="obs_id", choice_col="choice",
            model_type=LIBTYPE[self.type(d)], **self.kw[d]))
        m = self.mod[o["m"]][1]
        return [["names", m.ind_var_names], ["design", np.asarray(m.design)],
                ["shapes", m.shape_names], ["inter", m.intercept_names]]

    def _fit(self, o, **k):
        d, m = self.mod[o["m"]]
        init, a = self.fits[d, o["f"]]
        return m.fit_mle(init, **dict(a, **k))

    def edit(self, o):
        """the caller changes the new data in place"""
        x = self.df2["x1"].values.copy()
        self.df2["x1"] = self.df2["x2"].values
        self.df2["x2"] = x
        return []

    def fit(self, o):
        self.boots.pop(o["m"], None)
        self._fit(o)
        return self.read(o)

    def point(self, o):
        r = self._fit(o, just_point=True)
        return [["x", r["x"]], ["fun", r["fun"]]]

    def read(self, o):
        m = self.mod[o["m"]][1]
        return [[a, getattr(m, a)] for a in RESULTS]

    def confint(self, o):
        return [["ci", self.mod[o["m"]][1].conf_int(alpha=.1, return_df=True)]]

    def _draws(self, d):
        return dict(num_draws=3, seed=self.sc["pseed"]) if self.type(d) == "Mixed" else {}

    def predict(self, o):
        d, m = self.mod[o["m"]]
        m.params                        # of a fitted model
        return [["p", m.predict(self.df, return_long_probs=True, choice_col="choice",
                                **self._draws(d))]]

    def predictother(self, o):
        d, m = self.mod[o["m"]]
        m.params
        return [["p", m.predict(self.df2, return_long_probs=True, choice_col="choice",
                                **self._draws(d))]]

    def predictgiven(self, o):
        d, m = self.mod[o["m"]]
        return [["p", m.predict(self.df2, param_list=self.given[d], return_long_probs=True,
                                choice_col="choice", **self._draws(d))]]

    def panel(self, o):
        d, m = self.mod[o["m"]]
        return [["p", m.panel_predict(self.df2, 3, return_long_probs=True, choice_col="choice",
                                      seed=self.sc["pseed"])]]

    def print(self, o):
        self.mod[o["m"]][1].print_summaries()
        return []

    def save(self, o):
        self.saved = os.path.abspath("model-%d.pkl" % os.getpid())
        self.saved_d = self.mod[o["m"]][0]
        self.mod[o["m"]][1].to_pickle(self.saved)
        return []

    def load(self, o):
        self.boots.pop(o["m"], None)
        with open(self.saved, "rb") as fh:
            m = pickle.load(fh)
        self.mod[o["m"]] = (self.saved_d, m)
        return [["type", m.model_type]]

    def _boot(self, o):
        from pylogit.bootstrap import Boot
        d, m = self.mod[o["m"]]
        p = self.held.get("mle_params-%d" % o["m"])
        p = m.params.values
        self.held["mle_params-%d" % o["m"]] = p
        kw = dict(ridge=2.0, maxiter=4)
        if self.type(d) != "MNL":
            key = "mnl-%d" % d
            if key not in self.held:
                kk = dict(self.kw[d])
                self.held[key] = [kk["specification"], kk.get("names")]
                self.companion = self.companion if hasattr(self, "companion") else {}
                self.companion[d] = pylogit.create_choice_model(
                    self.df, alt_id_col="alt_id", obs_id_col="obs_id", choice_col="choice",
                    model_type="MNL", specification=kk["specification"], names=kk.get("names"))
                self.held["mnl_init_vals-%d" % d] = np.zeros(
                    len(self.companion[d].ind_var_names))
                self.held["mnl_fit_kwargs-%d" % d] = dict(ridge=1.0, maxiter=2, print_res=False)
            kw.update(mnl_obj=self.companion[d],
                      mnl_init_vals=self.held["mnl_init_vals-%d" % d],
                      mnl_fit_kwargs=self.held["mnl_fit_kwargs-%d" % d],
                      extract_init_vals=lambda obj, ser, n: np.full(n, .1))
        return Boot(m, p), kw

    def boot(self, o):
        b, kw = self._boot(o)
        b.generate_bootstrap_replicates(3, boot_seed=self.sc["pseed"], **kw)
        b.calc_conf_intervals(80, interval_type="pi")
        return [["reps", b.bootstrap_replicates], ["pi", b.percentile_interval],
                ["ll", b.calc_log_likes_for_replicates()]]

    def jack(self, o):
        b, kw = self._boot(o)
        b.generate_jackknife_replicates(**kw)
        b.bootstrap_replicates = pd.DataFrame(
            b.mle_params.values[None, :] + np.linspace(-1, 1.3, 5)[:, None],
            columns=b.mle_params.index)
        self.held["replicates-%d" % o["m"]] = b.bootstrap_replicates
        b.calc_conf_intervals(80, interval_type="bca")
        return [["reps", b.jackknife_replicates], ["bca", b.bca_interval]]

    def abc(self, o):
        d, m = self.mod[o["m"]]
        b, kw = self._boot(o)
        init, a = self.fits[d, 1]
        n = float(len(set(self.sc["tab"]["obs"])))
        kw = dict(ridge=1.0, maxiter=200, print_res=False, gradient_tol=1e-9)
        r = m.fit_mle(init, weights=np.full(len(self.df), 1 / n), just_point=True, **kw)
        b = type(b)(m, r["x"])
        self.held["abc-options"] = kw
        b.calc_conf_intervals(80, interval_type="abc", init_vals=init, epsilon=.01, **kw)
        return [["abc", b.abc_interval]]

    def ci80(self, o):
        return self._levels(o, 80)

    def ci95(self, o):
        return self._levels(o, 95)

    def _levels(self, o, level):
        """all the intervals, from a bootstrap object that is kept"""
        d, m = self.mod[o["m"]]
        if o["m"] not in self.boots:
            b, kw = self._boot(o)
            p = b.mle_params
            b.bootstrap_replicates = pd.DataFrame(
                p.values[None, :] + np.linspace(-1, 1.3, 40)[:, None] *
                np.cos(np.arange(len(p)))[None, :], columns=p.index)
            b.jackknife_replicates = pd.DataFrame(
                p.values[None, :] + (np.arange(5) ** 2)[:, None] *
                np.sin(1 + np.arange(len(p)))[None, :], columns=p.index)
            self.boots[o["m"]] = b
        b = self.boots[o["m"]]
        init, a = self.fits[d, 1]
        kw = dict(ridge=1.0, maxiter=3, print_res=False)
        b.calc_conf_intervals(level, interval_type="all", init_vals=init, epsilon=.01, **kw)
        return [["all", b.all_intervals], ["pi", b.percentile_interval],
                ["bca", b.bca_interval], ["abc", b.abc_interval]]

    def norms(self, o):
        b, kw = self._boot(o)
        b.bootstrap_replicates = pd.DataFrame(
            b.mle_params.values[None, :] + np.array([[.1], [-.2]]), columns=b.mle_params.index)
        self.held["replicates-%d" % o["m"]] = b.bootstrap_replicates
        return [["norm", b.calc_gradient_norm_for_replicates(ridge=.5)],
                ["ll", b.calc_log_likes_for_replicates()]]

    # ----------------------------------------------------------------------------
    def applicable(self, o, d):
        t = self.type(d)
        if o["op"] == "panel":
            return t == "Mixed"
        if o["op"] in ("boot", "jack", "abc", "norms", "ci80", "ci95"):
            return t != "Mixed"
        return True

    def do(self, o):
        np.random.seed(random.randrange(10 ** 6))
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            r, err = guarded(getattr(self, o["op"]), o)
        res = []
        for name, x in (r or []):
            flat(name, x, res)
        return res, err


def in_child(fn, limit=60):
    """fn() in a forked process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(limit)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            with os.fdopen(w, "w") as fh:
                json.dump(fn(), fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as fh:
        text = fh.read()
    os.waitpid(pid, 0)
    if not text:
        raise RuntimeError("no result from the child process")
    return json.loads(text)


# ------------------------------------------------------------------- P21 ----
def follow(sc, ops):
    """the applicable operations of a history, with (definition, fit) before each"""
    mod, file, out, v = {1: (0, 0), 2: (0, 0)}, (0, 0), [], 1
    probe = Session.applicable
    for o in ops:
        d, f = mod[o["m"]]
        if o["op"] == "edit":
            v = 3 - v
            out.append((o, d, f, v))
            continue
        if o["op"] == "create":
            d = o["d"]
        elif o["op"] == "load":
            if not file[0]:
                continue
            d = file[0]
        elif not d:
            continue
        fake = type("S", (), dict(sc=sc, type=lambda self, d: sc["defs"][d - 1]["M"]["type"]))()
        if not probe(fake, o, d):
            continue
        out.append((o, d, f, v))
        if o["op"] == "create":
            mod[o["m"]] = (d, 0)
        elif o["op"] == "fit":
            mod[o["m"]] = (d, o["f"])
        elif o["op"] == "save":
            file = (d, f)
        elif o["op"] == "load":
            mod[o["m"]] = file
    return out


def run_life(sc):
    ops = follow(sc, sc["ops"])

    def history():
        S = Session(sc)
        return [dict(o=o, res=r, err=e) for o, _, _, _ in ops for r, e in [S.do(o)]]

    def reference(o, d, f, v):
        S = Session(sc)
        if v == 2:
            S.edit(o)
        if o["op"] == "load":
            S.create(dict(m=1, d=d))
            S.save(dict(m=1))
            return S.do(dict(o, m=1))
        if o["op"] != "create":
            S.create(dict(m=1, d=d))
            if f and o["op"] not in ("fit", "point", "save"):
                S._fit(dict(m=1, f=f))
        r, e = S.do(dict(o, m=1))
        return r, e

    steps = in_child(history)
    refs, seen = [], set()
    for o, d, f, v in ops:
        if o["op"] == "edit":
            continue
        v = v if o["op"] in ONNEW else 0
        f = 0 if o["op"] in ("create", "save", "load") else o["f"] if o["op"] in (
            "fit", "point") else f
        key = (o["op"], d, f, v)
        if key in seen or (f == 0 and o["op"] in ASKS):
            continue
        seen.add(key)
        try:
            r, e = in_child(lambda: reference(o, d, f, v))
        except RuntimeError:
            return []
        refs.append(dict(key=dict(op=key[0], d=d, f=f, v=v), res=r, err=e))
    # singular second derivatives are no matter of histories
    if any(x["err"].startswith("LinAlgError") for x in refs):
        return []
    return [dict(kind="life", steps=steps, refs=refs,
                 types=[D["M"]["type"] for D in sc["defs"]])]


ASKS = ("read", "predict", "predictother", "confint", "panel", "boot", "jack", "abc", "norms",
        "ci80", "ci95")
ONNEW = ("predictother", "predictgiven", "panel")


# ------------------------------------------------------------------- P22 ----
def snap(x):
    s = dict(index=[], cols=[], atoms=[])
    if isinstance(x, pd.DataFrame):
        s["index"] = [repr(v) for v in x.index] + [str(x.index.dtype), str(x.index.name)]
        for j, c in enumerate(x.columns):
            v = x.iloc[:, j]
            vals = [num(q) if isinstance(q, (float, np.floating)) else repr(q)
                    for q in v.tolist()]
            const = num(v.iloc[0]) if len(v) and len(set(vals)) == 1 and \
                not isinstance(v.iloc[0], str) else ""
            s["cols"].append(dict(name=str(c), dtype=str(v.dtype), vals="|".join(vals),
                                  const=const))
    else:
        _atoms(x, s["atoms"])
    return s


def _atoms(x, out):
    if isinstance(x, np.ndarray):
        out.append("array %s %s" % (x.dtype, x.shape))
        out.append("|".join(num(v) if isinstance(v, float) else repr(v)
                            for v in x.ravel().tolist()))
    elif isinstance(x, pd.Series):
        out.append("series %s" % x.dtype)
        _atoms(list(x.index), out)
        _atoms(x.values, out)
    elif isinstance(x, dict):
        out.append("dict %d" % len(x))
        for k in x:
            out.append("key %r" % (k,))
            _atoms(x[k], out)
    elif isinstance(x, (list, tuple)):
        out.append("%s %d" % (type(x).__name__, len(x)))
        for v in x:
            _atoms(v, out)
    else:
        out.append("%s %s" % (type(x).__name__, num(x) if isinstance(x, float) else repr(x)))


class Watch(object):
    def __init__(self, held):
        self.held, self.events = held, []

    def around(self, op, fn, icpt=()):
        before = {k: snap(v) for k, v in self.held.items()}
        objs = dict(self.held)
        _, err = fn()
        args = [dict(name=k, before=before[k], after=snap(objs[k]),
                     icpt=1 if k in icpt else 0) for k in before]
        self.events.append(dict(kind="touch", op=op, err=err, args=args))


def run_touch(sc):
    ops = follow(sc, sc["ops"])

    def session():
        S = Session(sc)
        W = Watch(S.held)
        for o, d, f, _ in ops:
            if o["op"] == "edit":
                S.edit(o)
                continue
            # a specification with an intercept adds it to the table it is applied to
            ic = ("data", "new-data") if sc["defs"][d - 1].get("icpt") else ()
            if o["op"] in ("boot", "jack", "abc", "norms", "ci80", "ci95"):
                with contextlib.redirect_stdout(io.StringIO()):
                    guarded(S._boot, o)        # the objects the caller hands over
            W.around(o["op"], lambda: S.do(o), ic)
        return W.events
    return in_child(session)


def run_tables(sc):
    """the table functions"""
    from pylogit import choice_tools as ct
    from pylogit import bootstrap_sampler as bs
    held = OD()
    W = Watch(held)

    def q(fn, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            return guarded(fn, *a, **k)
    if sc["form"] == "l2w":
        L = sc["l2w"]
        A = L["A"]
        held["data"] = d_table.l2w_frame(L)
        held["ind_vars"] = list(A["ind"])
        held["alt_vars"] = list(A["alts"])
        held["subset_vars"] = OD((s["var"], list(s["alts"])) for s in A["subset"])
        held["alt_names"] = OD((n["alt"], n["name"]) for n in A["names"]) if A["names"] else None
        held["null"] = np.nan if A["null"] == "nan" else float(A["null"])
        W.around("convert_long_to_wide", lambda: q(
            ct.convert_long_to_wide, held["data"], held["ind_vars"], held["alt_vars"],
            held["subset_vars"], A["obscol"], A["altcol"], A["chcol"], held["alt_names"],
            held["null"]))
    elif sc["form"] == "w2l":
        L = sc["w2l"]
        B = L["B"]
        held["data"] = d_table.w2l_frame(L)
        held["ind_vars"] = list(B["ind"])
        held["alt_specific_vars"] = OD((v["name"], OD((m["alt"], m["col"]) for m in v["from"]))
                                       for v in B["asv"])
        held["availability_vars"] = OD((m["alt"], m["col"]) for m in B["avail"])
        W.around("convert_wide_to_long", lambda: q(
            ct.convert_wide_to_long, held["data"], held["ind_vars"],
            held["alt_specific_vars"], held["availability_vars"], B["obscol"], B["chcol"]))
    else:
        T, M = sc["tab"], sc["M"]
        held["data"] = dataframe(T, index=sc.get("index"), order=sc.get("order"))
        held["specification"] = spec_dict(M)
        held["names"] = names_dict(M) if M.get("named") else None
        held["nest_spec"] = OD((k, list(n)) for k, n in zip(nest_names(M), M["nests"])) or None
        W.around("create_design_matrix", lambda: q(
            ct.create_design_matrix, held["data"], held["specification"], "alt_id",
            names=held["names"]))
        W.around("create_long_form_mappings", lambda: q(
            ct.create_long_form_mappings, held["data"], "obs_id", "alt_id",
            choice_col="choice", nest_spec=held["nest_spec"], mix_id_col="ind_id"))
        held["obs_ids"], held["alt_ids"] = held["data"]["obs_id"].values, held["data"]["alt_id"].values
        held["choices"] = held["data"]["choice"].values
        got = {}

        def samples():
            got["s"], e = q(bs.create_cross_sectional_bootstrap_samples, held["obs_ids"],
                            held["alt_ids"], held["choices"], 3, seed=sc["pseed"])
            return None, e
        W.around("create_cross_sectional_bootstrap_samples", samples)
        r, e = q(bs.create_deepcopied_groupby_dict, held["data"], "obs_id")
        if not e and got["s"] is not None:
            held["samples"] = got["s"]
            for k in r:
                held["groupby_dict[%s]" % k] = r[k]
            W.around("create_bootstrap_dataframe", lambda: q(
                bs.create_bootstrap_dataframe, held["data"], "obs_id", held["samples"][0], r,
                boot_id_col="bootstrap_id"))
    return W.events


# ------------------------------------------------------------- scenarios ----
def rand_def(rng, T, t, maxcoef=3, icpt=False):
    M = rand_model(rng, T, t, maxcoef=maxcoef)
    fits = []
    for f in range(2):
        th = rand_theta(rng, T, M)
        n = len(th)
        A = dict(th=th, ridge=rng.choice([3.7, 2.5, 5.0]), maxiter=rng.choice([0, 2, 5]),
                 method=rng.choice(["BFGS", "BFGS", "CG", "L-BFGS-B"]), w=[], cpos=[],
                 ndraw=rng.randint(1, 4), seed=rng.randint(1, 10 ** 6))
        if rng.random() < .4:
            A["w"] = unit_weights(rng, T, M, "frac")
        if rng.random() < .4:
            A["cpos"] = sorted(rng.sample(range(1, n + 1), rng.choice([1, min(2, n)])))
            if rng.random() < .5:
                A["cpos"].reverse()
        fits.append(A)
    return dict(M=M, fits=fits, given=rand_theta(rng, T, M), icpt=int(icpt))


def rand_session(rng, k, touch=False):
    J = rng.randint(2, 3)
    alts = rand_alts(rng, J)
    t2 = TYPES[k % 7]
    t1 = TYPES[(k // 7) % 7]
    T = rand_table(rng, nobs=rng.randint(J + 2, 7), alts=alts, ncol=3,
                   avail=rng.choice([.7, 1.0]), panel=True)
    T2 = rand_table(rng, nobs=rng.randint(J, 5), alts=alts, ncol=3, avail=rng.choice([.7, 1.0]),
                    panel=True)
    sc = dict(tab=T, tab2=T2, pseed=rng.randint(1, 10 ** 6),
              defs=[rand_def(rng, T, t, icpt=touch and rng.random() < .5) for t in (t1, t2)])
    if touch:
        if rng.random() < .6:
            sc["index"] = odd_index(rng, len(T["obs"]))
        if rng.random() < .6:
            o = ["obs_id", "alt_id", "choice", "ind_id", "x1", "x2", "x3"]
            rng.shuffle(o)
            sc["order"] = o
    return sc


def op(n, m, d=0, f=0):
    return dict(op=n, m=m, d=d, f=f)


def rand_history(rng, n):
    ops = [op("create", 1, 1), op("create", 2, 2)]
    state = {1: 0, 2: 0}
    at = rng.sample(range(n), 2) if rng.random() < .5 else []     # save, then load
    for k in range(n):
        m = rng.choice([1, 2])
        r = rng.random() if k not in at else .5 if k == min(at) else .55
        if r < .3 or k not in at and not state[m] and r < .6:
            f = rng.choice([1, 2])
            ops.append(op("fit", m, 0, f))
            state[m] = f
        elif r < .4:
            ops.append(op("point", m, 0, rng.choice([1, 2])))
        elif r < .45:
            ops.append(op("create", m, rng.choice([1, 2])))
            state[m] = 0
        elif r < .53:
            ops.append(op("save", m))
        elif r < .6:
            ops.append(op("load", m))
            state[m] = 1
        else:
            ops.append(op(rng.choice(ASKS + ("read", "predictgiven", "print", "edit",
                                             "predictother")), m))
            if ops[-1]["op"] in ("ci80", "ci95") and rng.random() < .7:
                ops.append(op("ci80" if ops[-1]["op"] == "ci95" else "ci95", m))
    return ops


def closing(ops):
    """ask every model once more; put a reloaded one to all its uses"""
    last = {o["m"]: o["op"] for o in ops if o["op"] in ("create", "load")}
    return ops + [op(x, m, 0, 2 if x == "fit" else 0) for m in sorted(last)
                  for x in ("read", "predict", "predictother", "edit", "predictother",
                            "predictgiven") + (
                      ("panel", "predictother", "fit", "confint", "panel")
                      if last[m] == "load" else ())]


COUNT = {"P21": (150, 60, 4000, 600), "P22": (0, 84, 0, 900)}


def run(sc):
    return dict(life=run_life, touch=run_touch, tables=run_tables)[sc["what"]](sc)


def scenarios(prop, tier, seed, gen):
    a, b, c, d = COUNT[prop]
    if tier == "thorough":
        a, b = c, d
    plans = []
    if a:
        plans = d_table.readgen(gen, "MC_Life")
        plans.sort(key=json.dumps)
        random.Random("plans%s" % seed).shuffle(plans)
    for k, ops in enumerate(plans[:a]):
        def mk(k=k, ops=ops):
            rng = random.Random("%s/%s/t%d" % (prop, seed, k))
            random.seed("%s%s" % (seed, k))
            return dict(rand_session(rng, k), what="life", ops=closing(ops))
        yield "%s-tlc-%d" % (prop, k), mk
    for k in range(b):
        def mk(k=k):
            rng = random.Random("%s/%s/%d" % (prop, seed, k))
            random.seed("%s%s" % (seed, k))
            if prop == "P21":
                return dict(rand_session(rng, k), what="life",
                            ops=closing(rand_history(rng, rng.randint(5, 10))))
            return dict(rand_session(rng, k, touch=True), what="touch",
                        ops=rand_history(rng, rng.randint(8, 14)))
        yield "%s-%d" % (prop, k), mk
    if prop == "P22":
        for k in range(3 * b):
            def mk(k=k):
                rng = random.Random("%s/%s/x%d" % (prop, seed, k))
                form = ["l2w", "w2l", "long"][k % 3]
                sc = dict(what="tables", form=form, pseed=rng.randint(1, 10 ** 6))
                if form == "l2w":
                    sc["l2w"] = d_table.rand_l2w(rng, k)
                elif form == "w2l":
                    sc["w2l"] = d_table.rand_w2l(rng, k)
                else:
                    b_ = base_scenario(rng, rng.choice(TYPES))
                    sc.update(tab=b_["tab"], M=b_["M"])
                    if rng.random() < .5:
                        sc["index"] = odd_index(rng, len(b_["tab"]["obs"]))
                return sc
            yield "%s-x%d" % (prop, k), mk
