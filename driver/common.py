"""Shared driver code: scenarios, and their execution against the library.

Runs under PyPy with /repo/src on the path.  A scenario is a JSON-able dict
(see spec/Choice.tla, spec/Models.tla for the meaning of its fields); numbers
that the specification computes with are decimal numerals (strings).
"""
import collections
import json
import os
import random
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")
import numpy as np          # noqa: E402
import pandas as pd         # noqa: E402
np.seterr(all="ignore")

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
import pylogit              # noqa: E402

OD = collections.OrderedDict
TYPES = ["MNL", "Asym", "Cloglog", "Scobit", "Uneven", "Nested", "Mixed"]
LOGITS = TYPES[:5]
LIBTYPE = {"MNL": "MNL", "Asym": "Asym", "Cloglog": "Cloglog",
           "Scobit": "Scobit", "Uneven": "Uneven",
           "Nested": "Nested Logit", "Mixed": "Mixed Logit"}


# ------------------------------------------------------------- numerals ----
def num(v):
    """Numeral of a float (exact decimal rendering of the double)."""
    try:
        v = float(v)
    except Exception:
        return "nan"
    if v != v:
        return "nan"
    if v in (float("inf"), float("-inf")):
        return "inf"
    if v == int(v) and abs(v) < 1e15:
        return str(int(v))
    return repr(v)


def nums(a):
    try:
        return [num(v) for v in np.asarray(a, dtype=float).ravel()]
    except Exception:
        return ["nan"]


def mat(a):
    try:
        a = np.asarray(a, dtype=float)
        if a.ndim != 2:
            return [["nan"]]
        return [[num(v) for v in row] for row in a]
    except Exception:
        return [["nan"]]


def f2(x):
    return [float(v) for v in x]


# ------------------------------------------------------ random scenarios ----
def rval(rng, lo=-2.0, hi=2.0, zero=0.1):
    if rng.random() < zero:
        return "0"
    return num(round(rng.uniform(lo, hi), 2))


def rand_alts(rng, J):
    """J alternative ids: consecutive, with gaps, of two digits, zero, negative"""
    r = rng.random()
    if r < .4:
        return list(range(1, J + 1))
    lo, hi = (1, 13) if r < .7 else (0, 25) if r < .9 else (-9, 9)
    return sorted(rng.sample(range(lo, hi), J))


def rand_table(rng, nobs=4, alts=(1, 2, 3), ncol=3, avail=0.8, panel=False,
               nind=None, all_chosen=True, shuffle_rows=True, ids="mixed",
               contiguous_ind=None, lo=-2.0, hi=2.0):
    """A random valid long-format table (observations contiguous)."""
    alts = list(alts)
    while True:
        oids = list(range(1, nobs + 1))
        if ids == "mixed":
            r = rng.random()
            base = rng.randrange(0, 60) if r < .75 else rng.randrange(-30, 0) if r < .87 \
                else rng.randrange(10 ** 6, 2 * 10 ** 9)
            if rng.random() < 0.5:
                oids = sorted(rng.sample(range(base, base + 4 * nobs + 4), nobs))
            if rng.random() < 0.5:
                rng.shuffle(oids)
        if panel:
            k = nind or max(1, nobs // 2)
            r = rng.random()
            b0 = 1 if r < .7 else -20 if r < .85 else rng.randrange(10 ** 6, 2 * 10 ** 9)
            pool = rng.sample(range(b0, b0 + max(39, 2 * k)), k)
            inds = pool + [rng.choice(pool) for _ in range(nobs - k)]
            rng.shuffle(inds)
            if contiguous_ind if contiguous_ind is not None else rng.random() < .5:
                inds.sort(key=pool.index)
        else:
            inds = list(oids)
        T = dict(obs=[], alt=[], ch=[], ind=[], x=[[] for _ in range(ncol)])
        for o, i in zip(oids, inds):
            av = [a for a in alts if rng.random() < avail]
            if rng.random() < .04:
                av = [rng.choice(alts)]
            while len(av) < (2 if rng.random() < .96 else 1):
                av = [a for a in alts if rng.random() < avail]
                if avail < .3:
                    av = rng.sample(alts, 2)
            if shuffle_rows and rng.random() < 0.6:
                rng.shuffle(av)
            c = rng.choice(av)
            for a in av:
                T["obs"].append(o)
                T["alt"].append(a)
                T["ind"].append(i)
                T["ch"].append(1 if a == c else 0)
                for col in T["x"]:
                    col.append(rval(rng, lo, hi))
        if rng.random() < .15:
            whole = rng.random() < .5
            T["x"] = [[str(int(float(v))) for v in c] if whole or rng.random() < .5 else c
                      for c in T["x"]]
        if set(T["alt"]) != set(alts):
            continue
        if all_chosen and {a for a, c in zip(T["alt"], T["ch"]) if c} != set(alts):
            continue
        return T


def rand_groups(rng, alts):
    """(python specification entry, groups)"""
    r = rng.random()
    if r < 0.3:
        return "all_same", [list(alts)]
    if r < 0.45:
        return "all_diff", [[a] for a in alts]
    pool = list(alts)
    rng.shuffle(pool)
    entry, groups = [], []
    pool = pool[:rng.randint(1, len(pool))]
    while pool:
        k = rng.randint(1, len(pool))
        g, pool = pool[:k], pool[k:]
        if k == 1 and rng.random() < 0.7:
            entry.append(g[0])
        else:
            entry.append(list(g))
        groups.append(list(g))
    return entry, groups


def rand_model(rng, T, mtype, maxcoef=4, names=None):
    """A random model definition for table T."""
    alts = sorted(set(T["alt"]))
    J = len(alts)
    ncol = len(T["x"])
    while True:
        cols = rng.sample(range(ncol), rng.randint(1, ncol))
        spec = []
        for c in cols:
            e, g = rand_groups(rng, alts)
            spec.append(dict(v=c + 1, e=e, g=g))
        if sum(len(s["g"]) for s in spec) <= maxcoef:
            break
    M = dict(type=mtype, spec=spec, iref=-1, sref=0, nests=[], mix=[], draws=[])
    if mtype in ("Asym", "Cloglog", "Scobit", "Uneven"):
        M["iref"] = rng.choice([-1] + list(range(J)))
    if mtype == "Asym":
        M["sref"] = rng.randrange(J)
    if mtype == "Nested":
        M["nests"] = rand_nests(rng, alts)
    K = sum(len(s["g"]) for s in spec)
    if mtype == "Mixed":
        M["mix"] = sorted(rng.sample(range(1, K + 1), rng.randint(1, min(2, K))))
        if rng.random() < .3:
            M["mix"].reverse()
    M["named"] = 1 if (rng.random() < 0.5 if names is None else names) else 0
    M["salt"] = rng.randrange(1000)
    return M


WORDS = ["motor", "active", "zeta", "alpha", "10", "2", "B", "a", "Z z", "m", "Car", "bus"]


def words(M, n, what):
    """n different names, in no particular order"""
    w = list(WORDS)
    if M.get("same"):       # parameters of different groups with the same names
        what = ""
    random.Random("%s%s" % (M.get("salt", 0), what)).shuffle(w)
    return ["%s %s" % (what, x) if what else x for x in w[:n]]


def nest_names(M):
    return words(M, len(M["nests"]), "")


def int_names(T, M):
    return words(M, len(set(T["alt"])) - 1, "ASC") if M["iref"] >= 0 else []


def shape_names(T, M):
    J = len(set(T["alt"]))
    n = J - 1 if M["type"] == "Asym" else J if M["type"] in ("Scobit", "Uneven") else 0
    return words(M, n, "shape")


def rand_nests(rng, alts):
    pool = list(alts)
    rng.shuffle(pool)
    out = []
    while pool:
        k = rng.randint(1, len(pool))
        if len(out) == 0 and k == len(pool) and len(pool) > 1 and rng.random() < .8:
            k = len(pool) - 1
        out.append(pool[:k])
        pool = pool[k:]
    rng.shuffle(out)
    return out


def counts(M, J):
    t = M["type"]
    nn = len(M["nests"]) if t == "Nested" else 0
    ns = J - 1 if t == "Asym" else (J if t in ("Scobit", "Uneven") else 0)
    ni = J - 1 if M["iref"] >= 0 else 0
    nb = sum(len(s["g"]) for s in M["spec"])
    nm = len(M["mix"]) if t == "Mixed" else 0
    return nn, ns, ni, nb, nm


def nparam(T, M):
    return sum(counts(M, len(set(T["alt"]))))


def near_kink(T, M, th):
    """some row's index cancels to about zero: its sign is a matter of rounding"""
    b = [float(v) for v in param_list(T, M, th)[0]]
    for r in range(len(T["alt"])):
        terms, k = [], 0
        for s in M["spec"]:
            for g in s["g"]:
                if T["alt"][r] in g:
                    terms.append(b[k] * float(T["x"][s["v"] - 1][r]))
                k += 1
        if any(t != 0 for t in terms) and abs(sum(terms)) < 1e-9:
            return True
    return False


def rand_theta(rng, T, M, scale=1.0):
    while True:
        th = _rand_theta(rng, T, M, scale)
        if M["type"] != "Asym" or not near_kink(T, M, th):
            return th


def _rand_theta(rng, T, M, scale=1.0):
    nn, ns, ni, nb, nm = counts(M, len(set(T["alt"])))
    th = [num(round(rng.uniform(-2, 2.5), 3)) for _ in range(nn)]
    th += [num(round(rng.uniform(-.8, .8), 3)) for _ in range(ns)]
    th += [num(round(rng.uniform(-1, 1), 3)) for _ in range(ni)]
    th += [num(round(rng.uniform(-.9, .9) * scale, 3)) for _ in range(nb)]
    th += [num(round(rng.uniform(-1, 1), 3)) for _ in range(nm)]
    return th


def odd_index(rng, n):
    """row labels of a table: shuffled, repeated, negative, text, fractions"""
    r = rng.random()
    if r < .4:
        return rng.sample(range(max(1000, n)), n)
    if r < .7:
        m = max(1, n // 2)
        return [rng.randrange(m) for _ in range(n)]
    if r < .8:
        return [-k for k in range(n)]
    if r < .9:
        return ["r%d" % rng.randrange(max(2, n)) for _ in range(n)]
    return [k + .5 for k in range(n)][::-1]


def unit_weights(rng, T, M, kind=None):
    """row weights, constant within an observation (individual if mixed)"""
    key = T["ind"] if M["type"] == "Mixed" else T["obs"]
    kind = kind or rng.choice(["one", "frac", "int", "zero"])
    wt = {}
    for k in key:
        if k not in wt:
            wt[k] = {"one": "1",
                     "frac": num(round(rng.uniform(0.05, 3), 2)),
                     "int": str(rng.randint(1, 4)),
                     "zero": rng.choice(["0", "1", "0.5"])}[kind]
    return [wt[k] for k in key]


# ------------------------------------------------------- building models ----
def dataframe(T, index=None, extra=None, order=None):
    """the table as a data frame; types and bystanders vary with its contents"""
    rng = random.Random(repr((T["obs"], T["alt"], T["ch"])))
    d = OD()
    d["obs_id"] = np.array(T["obs"], dtype=rng.choice([int, int, int, float]))
    d["alt_id"] = np.array(T["alt"], dtype=rng.choice([int, int, np.int32]))
    d["choice"] = np.array(T["ch"], dtype=rng.choice([int, int, int, float, bool, np.int8]))
    d["ind_id"] = np.array(T["ind"], dtype=int)
    for k, col in enumerate(T["x"]):
        whole = all("." not in v and "e" not in v for v in col) and rng.random() < .7
        d["x%d" % (k + 1)] = np.array([(int if whole else float)(v) for v in col])
    if not order and rng.random() < .3:
        d["note"] = ["n%d" % k for k in range(len(T["obs"]))]
        d["gap"] = np.full(len(T["obs"]), np.nan)
    df = pd.DataFrame(d)
    if order:
        df = df[order]
    if index is not None:
        df.index = index
    return df


def vname(M, v):
    """the column of variable v; a constant one may be left to the library"""
    return "intercept" if M.get("icpt") == v else "x%d" % v


def constant(M, T):
    """keep the intercept's column at one"""
    if T and M.get("icpt"):
        T["x"][M["icpt"] - 1] = ["1"] * len(T["obs"])
    return T


def spec_dict(M):
    return OD((vname(M, s["v"]), s["e"]) for s in M["spec"])


def coef_names(M, alts=None):
    """user names, position by position (a readable encoding of var/group)"""
    out = []
    for s in M["spec"]:
        for g in s["g"]:
            out.append("b_%s_%s" % (vname(M, s["v"]), "-".join(str(a) for a in g)))
    return out


def names_dict(M):
    d = OD()
    w = words(M, 99, "")
    for s in M["spec"]:
        if M.get("same") and len(s["g"]) <= len(w):
            nm, w = w[:len(s["g"])], w[len(s["g"]):]
            d[vname(M, s["v"])] = nm[0] if s["e"] == "all_same" else nm
            continue
        nm = ["b_%s_%s" % (vname(M, s["v"]), "-".join(str(a) for a in g)) for g in s["g"]]
        d[vname(M, s["v"])] = nm[0] if s["e"] == "all_same" else nm
    return d


def default_names(M):
    out = []
    for s in M["spec"]:
        if s["e"] == "all_same":
            out.append(vname(M, s["v"]))
        elif s["e"] == "all_diff":
            out += ["%s_%s" % (vname(M, s["v"]), g[0]) for g in s["g"]]
        else:
            for e in s["e"]:
                if isinstance(e, list):
                    out.append("%s_%s" % (vname(M, s["v"]), e))
                else:
                    out.append("%s_%s" % (vname(M, s["v"]), e))
    return out


def model_kwargs(T, M):
    alts = sorted(set(T["alt"]))
    J = len(alts)
    t = M["type"]
    kw = {}
    if M.get("named"):
        kw["names"] = names_dict(M)
    if t in ("Asym", "Cloglog", "Scobit", "Uneven") and M["iref"] >= 0:
        kw["intercept_ref_pos"] = M["iref"]
        if not M.get("noinames"):
            kw["intercept_names"] = int_names(T, M)
    if t == "Asym":
        kw["shape_ref_pos"] = M["sref"]
        if not M.get("nosnames"):
            kw["shape_names"] = shape_names(T, M)
    if t in ("Scobit", "Uneven") and not M.get("nosnames"):
        kw["shape_names"] = shape_names(T, M)
    if t == "Nested":
        kw["nest_spec"] = OD((k, list(n)) for k, n in zip(nest_names(M), M["nests"]))
    if t == "Mixed":
        nm = coef_names(M) if M.get("named") else default_names(M)
        kw["mixing_id_col"] = "ind_id"
        kw["mixing_vars"] = [nm[p - 1] for p in M["mix"]]
    return kw


def as_file(df):
    """the path of a comma-separated file with the table, in the scratch directory"""
    path = os.path.abspath("table-%d.csv" % os.getpid())
    df.to_csv(path, index=False)
    return path


def build(T, M, df=None, **over):
    kw = model_kwargs(T, M)
    kw.update(over)
    return pylogit.create_choice_model(
        dataframe(T) if df is None else df, alt_id_col="alt_id",
        obs_id_col="obs_id", choice_col="choice",
        specification=spec_dict(M), model_type=LIBTYPE[M["type"]], **kw)


def attach_draws(rng, T, M, ndraw=3, seed=None):
    """Random draws for a mixed scenario (chosen by us, not by the library)."""
    if M["type"] != "Mixed":
        return
    n = len(set(T["ind"]))
    M["draws"] = [[[num(round(rng.gauss(0, 1), 3)) for _ in range(ndraw)]
                   for _ in range(n)] for _ in M["mix"]]


def lib_draws(T, M, ndraw, seed):
    """The library's own draws for a seed, through its public function."""
    from pylogit import mixed_logit_calcs as mlc
    d = mlc.get_normal_draws(len(set(T["ind"])), ndraw, len(M["mix"]), seed=seed)
    return [mat(a) for a in d]


def theta(sc_th):
    return np.array([float(v) for v in sc_th])


def estimator(model, T, M, th, w=None, ridge=None, cpos=None):
    """The library's estimation object for a model and chosen draws."""
    from pylogit import mixed_logit_calcs as mlc
    from pylogit.construct_estimator import create_estimation_obj
    if M["type"] == "Mixed":
        mp = model.get_mappings_for_fit()
        draws = [np.array([[float(v) for v in row] for row in m]) for m in M["draws"]]
        model.design_3d = mlc.create_expanded_design_for_mixing(
            model.design, draws, model.mixing_pos, mp["rows_to_mixers"])
    e = create_estimation_obj(
        model, th, ridge=ridge, constrained_pos=cpos,
        weights=None if w is None else np.array([float(v) for v in w]))
    if hasattr(e, "set_derivatives"):
        e.set_derivatives()
    return e


def param_list(T, M, th):
    nn, ns, ni, nb, nm = counts(M, len(set(T["alt"])))
    th = np.asarray(th)
    a, b, c = nn, nn + ns, nn + ns + ni
    return [th[c:], th[b:c] if ni else None, th[a:b] if ns else None,
            th[:a] if nn else None]


# ---------------------------------------------------------------- running ----
def guarded(fn, *a, **k):
    """(result, "") or (None, error text)"""
    try:
        return fn(*a, **k), ""
    except Exception as ex:                                   # noqa
        return None, "%s: %s" % (type(ex).__name__, str(ex)[:300])


def emit(fh, ev):
    fh.write(json.dumps(ev, sort_keys=True) + "\n")


def clean_model(M):
    """the fields the specification reads"""
    return dict(type=M["type"], iref=M["iref"], sref=M["sref"],
                nests=M["nests"], mix=M["mix"], draws=M["draws"],
                spec=[dict(v=s["v"], g=s["g"]) for s in M["spec"]])
