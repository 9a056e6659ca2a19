"""P01-P06: design matrices, mappings, format conversions."""
from common import *                                          # noqa
from pylogit import choice_tools as ct


def readgen(gen, module):
    out = []
    with open(gen) as fh:
        for line in fh:
            g = json.loads(line)
            if g["mc"] == module:
                out.append(g["g"])
    return out


def series(vals, rng=None):
    """A column of numerals, integer typed when it can be (unless rng says no)."""
    if all("." not in v and "e" not in v and v != "nan" for v in vals) and not (
            rng and rng.random() < .3):
        return np.array([int(v) for v in vals])
    return np.array([float(v) for v in vals])


# ------------------------------------------------------------------ P01 ----
def run_design(sc):
    spec = OD()
    for e in sc["spec"]:
        spec[e["var"]] = e["form"] if e["form"] != "list" else [
            i["alts"][0] if i["one"] else list(i["alts"]) for i in e["items"]]
    names = None
    form = {e["var"]: e["form"] for e in sc["spec"]}
    if sc["names"]:
        names = OD((m["var"], m["n"][0] if form[m["var"]] == "all_same" else list(m["n"]))
                   for m in sc["names"])
    n = len(sc["alt"])
    d = OD()
    d["alt_id"] = np.array(sc["alt"])
    for c in sorted(sc["cols"]):
        d[c] = series(sc["cols"][c])
    df = pd.DataFrame(d)
    if sc.get("index"):
        df.index = sc["index"]
    if sc.get("via") == "model":
        df["obs_id"] = np.array(sc["obs"])
        df["choice"] = np.array(sc["ch"])

        def op():
            m = pylogit.create_choice_model(
                df, alt_id_col="alt_id", obs_id_col="obs_id", choice_col="choice",
                specification=spec, model_type="MNL", names=names)
            return m.design, list(m.ind_var_names)
    else:
        def op():
            if any(e["var"] == "intercept" for e in sc["spec"]) and \
                    "intercept" not in sc["cols"]:
                df["intercept"] = 1.0
            return ct.create_design_matrix(df, spec, "alt_id", names=names)
    r, err = guarded(op)
    out = dict(design=[], labels=[])
    if not err:
        out = dict(design=mat(r[0]), labels=[str(x) for x in r[1]])
    ev = dict(kind="design", alt=sc["alt"], cols=sc["cols"], spec=sc["spec"],
              names=sc["names"], out=out, err=err)
    return ev


BIG = 4                     # the first few random cases are long (60-110 observations)


def size(rng, k, lo, hi):
    return rng.randint(60, 110) if k < BIG else rng.randint(lo, hi)


def rand_design(rng, k):
    T = rand_table(rng, nobs=size(rng, k, 2, 6), alts=rand_alts(rng, rng.choice([2, 3, 4, 5, 11])),
                   ncol=rng.randint(1, 3), avail=rng.choice([.5, .8, 1]), all_chosen=False)
    alts = sorted(set(T["alt"]))
    vn = rng.sample(["x", "cost", "travel time", "income_2", "z9", "intercept"], len(T["x"]))
    spec = []
    order = list(range(len(vn)))
    rng.shuffle(order)
    for j in order:
        e, g = rand_groups(rng, alts)
        items = []
        if isinstance(e, list):
            items = [dict(one=0 if isinstance(i, list) else 1, alts=gg) for i, gg in zip(e, g)]
        spec.append(dict(var=vn[j], form=e if isinstance(e, str) else "list", items=items,
                         ng=len(g)))
    names = []
    if rng.random() < .7:
        names = [dict(var=s["var"], n=["N %s %d" % (s["var"], q) for q in range(s["ng"])])
                 for s in spec]
        rng.shuffle(names)
    cols = {v: c for v, c in zip(vn, T["x"])}
    if "intercept" in cols and rng.random() < .6:
        del cols["intercept"]
    if not cols:
        cols["unused"] = T["x"][0]
    if rng.random() < .4:
        for c in cols:
            cols[c] = [str(rng.randint(-3, 9)) for _ in cols[c]]
    idx = None
    if rng.random() < .5:
        idx = odd_index(rng, len(T["alt"]))
    for s in spec:
        s.pop("ng")
    return dict(alt=T["alt"], obs=T["obs"], ch=T["ch"], cols=cols, spec=spec, names=names, index=idx,
                via=rng.choice(["model", "function"]))


# ------------------------------------------------------------------ P02 ----
def run_map(sc):
    T = sc["tab"]
    df = pd.DataFrame(OD([("o", np.array(T["obs"])), ("a", np.array(T["alt"])),
                          ("c", np.array(T["ch"])), ("i", np.array(T["ind"]))]))
    if sc.get("index"):
        df.index = sc["index"]
    nests = OD(("n%d" % k, list(n)) for k, n in enumerate(sc["nests"]))
    dense = bool(sc.get("dense"))

    def op():
        m = ct.create_long_form_mappings(df, "o", "a", choice_col="c", nest_spec=nests,
                                         mix_id_col="i", dense=dense)
        f = (lambda x: [[int(v) for v in row] for row in
                        np.asarray(x if dense else x.toarray())])
        return dict(obs=f(m["rows_to_obs"]), alt=f(m["rows_to_alts"]),
                    cho=f(m["chosen_row_to_obs"]), nest=f(m["rows_to_nests"]),
                    ind=f(m["rows_to_mixers"]))
    r, err = guarded(op)
    out = r or dict(obs=[], alt=[], cho=[], nest=[], ind=[])
    return dict(kind="map", tab=dict(obs=T["obs"], alt=T["alt"], ch=T["ch"], ind=T["ind"]),
                nests=sc["nests"], out=out, err=err)


def shuffled(rng, T):
    """interleave the rows of a table"""
    p = list(range(len(T["obs"])))
    rng.shuffle(p)
    return dict(obs=[T["obs"][k] for k in p], alt=[T["alt"][k] for k in p],
                ch=[T["ch"][k] for k in p], ind=[T["ind"][k] for k in p],
                x=[[c[k] for k in p] for c in T["x"]])


def gen_tab(rows):
    return dict(obs=[r["o"] for r in rows], alt=[r["a"] for r in rows],
                ch=[r["c"] for r in rows], ind=[r["o"] // 5 for r in rows],
                x=[[str(100 + 7 * (k + 1)) for k in range(len(rows))]])


def rand_map(rng, k):
    T = rand_table(rng, nobs=size(rng, k, 1, 8), alts=rand_alts(rng, rng.choice([2, 3, 4, 5, 6, 11])),
                   ncol=1, avail=.7, panel=True, all_chosen=False)
    if rng.random() < .6:
        T = shuffled(rng, T)
    idx = odd_index(rng, len(T["alt"])) if rng.random() < .5 else None
    return dict(tab=T, nests=rand_nests(rng, sorted(set(T["alt"]))), index=idx,
                dense=rng.randint(0, 1))


# ------------------------------------------------------------------ P03 ----
def table_out(df):
    return dict(cols=[str(c) for c in df.columns],
                rows=[[num(v) for v in row] for row in df.values.tolist()])


def l2w_frame(sc):
    T, A = sc["tab"], sc["A"]
    d = OD()
    d[A["obscol"]] = np.array(T["obs"])
    d[A["altcol"]] = np.array(T["alt"])
    d[A["chcol"]] = np.array(T["ch"])
    for c in sorted(sc["cols"]):
        d[c] = series(sc["cols"][c])
    df = pd.DataFrame(d)
    for c in sc.get("drop", []):
        df = df.drop(columns=[c])
    if sc.get("index"):
        df.index = sc["index"]
    return df


def l2w_call(sc, df):
    A = sc["A"]
    kw = {}
    if A["names"]:
        kw["alt_name_dict"] = {m["alt"]: m["name"] for m in A["names"]}
    if A["null"] != "nan":
        kw["null_value"] = float(A["null"])
    return ct.convert_long_to_wide(
        df, list(A["ind"]), list(A["alts"]), {s["var"]: list(s["alts"]) for s in A["subset"]},
        A["obscol"], A["altcol"], A["chcol"], **kw)


def spec_tab(T):
    return dict(obs=T["obs"], alt=T["alt"], ch=T["ch"], ind=T["ind"])


def run_l2w(sc):
    df = l2w_frame(sc)
    r, err = guarded(l2w_call, sc, df)
    out = dict(cols=[], rows=[]) if err else table_out(r)
    return dict(kind="l2w", tab=spec_tab(sc["tab"]), cols=sc["cols"], A=sc["A"], out=out, err=err)


def gen_l2w(rows):
    T = gen_tab(rows)
    return dict(tab=T, cols=dict(v=T["x"][0], z=[str(o * 3) for o in T["obs"]]),
                A=dict(obscol="obs", altcol="alt", chcol="ch", ind=["z"], alts=["v"], subset=[],
                       names=[], null="nan"))


def valid_rows(rows):
    pairs = [(r["o"], r["a"]) for r in rows]
    return len(set(pairs)) == len(pairs) and all(
        sum(r["c"] for r in rows if r["o"] == o) == 1 for o in {r["o"] for r in rows})


def rand_l2w(rng, k, all_chosen=False):
    nv = rng.randint(1, 3)
    T = rand_table(rng, nobs=size(rng, k, 2, 8) + (4 if all_chosen else 0),
                   alts=rand_alts(rng, rng.randint(2, 4)),
                   ncol=nv, avail=rng.choice([.5, .8, 1]), all_chosen=all_chosen)
    if rng.random() < .6:
        T = shuffled(rng, T)
    alts = sorted(set(T["alt"]))
    names = rng.sample(["v", "cost", "time", "u_3"], nv)
    cols = dict(zip(names, T["x"]))
    ind = rng.sample(["z", "age"], rng.randint(0, 2))
    for v in ind:
        val = {o: num(round(rng.uniform(-5, 50), 1)) for o in set(T["obs"])}
        cols[v] = [val[o] for o in T["obs"]]
    alt_vars, subset = [], []
    for v in names:
        if rng.random() < .3:
            s = rng.sample(alts, rng.randint(1, len(alts)))
            subset.append(dict(var=v, alts=s))
        else:
            alt_vars.append(v)
    an = []
    if rng.random() < .4:
        an = [dict(alt=a, name="mode%s" % chr(65 + j)) for j, a in enumerate(alts)]
        rng.shuffle(an)
    if rng.random() < .3:
        cols["extra"] = ["1"] * len(T["obs"])
    idx = odd_index(rng, len(T["alt"])) if rng.random() < .5 else None
    return dict(tab=T, cols=cols, index=idx,
                A=dict(obscol=rng.choice(["obs", "custom_id"]), altcol="alt", chcol="ch", ind=ind,
                       alts=alt_vars, subset=subset, names=an,
                       null=rng.choice(["nan", "nan", "-99", "0"])))


# ------------------------------------------------------------------ P04 ----
def w2l_call(sc, df):
    B = sc["B"]
    kw = {} if B["altname"] == "alt_id" else dict(new_alt_id_name=B["altname"])
    return ct.convert_wide_to_long(
        df, list(B["ind"]),
        OD((v["name"], OD((m["alt"], m["col"]) for m in v["from"])) for v in B["asv"]),
        OD((m["alt"], m["col"]) for m in B["avail"]), B["obscol"], B["chcol"], **kw)


def w2l_frame(sc):
    d = OD()
    for c in sorted(sc["W"]):
        d[c] = series(sc["W"][c])
    df = pd.DataFrame(d)
    if sc.get("index"):
        df.index = sc["index"]
    return df


def run_w2l(sc):
    df = w2l_frame(sc)
    r, err = guarded(w2l_call, sc, df)
    out = dict(cols=[], rows=[]) if err else table_out(r)
    return dict(kind="w2l", W=sc["W"], B=sc["B"], out=out, err=err)


def gen_w2l(g):
    w = g["w"]
    W = dict(obs=[str(r["id"]) for r in w], choice=[r["c"] for r in w],
             av2=[str(r["a2"]) for r in w], av4=[str(r["a4"]) for r in w],
             z=[str(10 * (k + 1)) for k in range(len(w))],
             u2=[str(101 + k) for k in range(len(w))], u4=[str(201 + k) for k in range(len(w))])
    two, four = dict(alt=2, col="av2"), dict(alt=4, col="av4")
    B = dict(obscol="obs", chcol="choice", altname="alt", ind=["z"],
             avail=[four, two] if g["flip"] else [two, four],
             asv=[dict(name="u", **{"from": [dict(alt=2, col="u2"), dict(alt=4, col="u4")]})])
    return dict(W=W, B=B)


def valid_wide(sc):
    W, B = sc["W"], sc["B"]
    av = {str(m["alt"]): m["col"] for m in B["avail"]}
    n = len(W[B["obscol"]])
    return (len(set(W[B["obscol"]])) == n and set(W[B["chcol"]]) == set(av) and
            all(W[av[W[B["chcol"]][i]]][i] != "0" for i in range(n)))


def rand_w2l(rng, k):
    while True:
        alts = rand_alts(rng, rng.randint(2, 4 if k >= BIG else 7))
        rng.shuffle(alts)
        n = size(rng, k, len(alts), 8)
        b0 = rng.choice([0, 0, 0, -20, 10 ** 6, 3 * 10 ** 9])
        ids = rng.sample(range(b0, b0 + 240), n)
        if rng.random() < .5:
            ids.sort()
        W = {"oid": [str(i) for i in ids], "pick": []}
        for a in alts:
            W["av_%d" % a] = [rng.choice("011") for _ in range(n)]
        ok = True
        for i in range(n):
            c = [a for a in alts if W["av_%d" % a][i] != "0"]
            if not c:
                ok = False
                break
            W["pick"].append(str(rng.choice(c)))
        if ok and set(W["pick"]) == {str(a) for a in alts}:
            break
    avail = [dict(alt=a, col="av_%d" % a) for a in alts]
    rng.shuffle(avail)
    ind = rng.sample(["age", "inc"], rng.randint(0, 2))
    for v in ind:
        W[v] = [rval(rng) for _ in range(n)]
    asv = []
    for v in rng.sample(["cost", "time", "wait"], rng.randint(0, 3)):
        sub = rng.sample(alts, rng.randint(1, len(alts)))
        fr = []
        for a in sub:
            W["%s_%d" % (v, a)] = [rval(rng, 0, 9) if rng.random() < .9 or
                                   W["av_%d" % a][i] != "0" else "nan" for i in range(n)]
            fr.append(dict(alt=a, col="%s_%d" % (v, a)))
        asv.append({"name": v, "from": fr})
    if rng.random() < .3:
        W["extra"] = ["3"] * n
    return dict(W=W, B=dict(obscol="oid", chcol="pick", altname=rng.choice(["alt_id", "mode"]),
                            ind=ind, avail=avail, asv=asv),
                index=odd_index(rng, n) if rng.random() < .5 else None)


# ------------------------------------------------------------------ P05 ----
def run_trip(sc):
    if sc["dir"] == "lwl":
        A = sc["A"]
        df = l2w_frame(sc)
        T = sc["tab"]
        alts = sorted(set(T["alt"]))
        var = list(A["alts"])
        before = [[str(T["obs"][r]), str(T["alt"][r]), str(T["ch"][r])] +
                  [sc["cols"][c][r] for c in A["ind"] + var] for r in range(len(T["obs"]))]

        def op():
            w = l2w_call(sc, df)
            nm = {m["alt"]: m["name"] for m in A["names"]} or {a: a for a in alts}
            order = list(alts)
            random.Random(sc["ord"]).shuffle(order)
            lg = ct.convert_wide_to_long(
                w, list(A["ind"]),
                OD((v, OD((a, "%s_%s" % (v, nm[a])) for a in order)) for v in var),
                OD((a, "availability_%s" % nm[a]) for a in order), A["obscol"], A["chcol"])
            return lg[[A["obscol"], "alt_id", A["chcol"]] + A["ind"] + var]
    else:
        B = sc["B"]
        df = w2l_frame(sc)
        W = sc["W"]
        alts = sorted(m["alt"] for m in B["avail"])
        av = {m["alt"]: m["col"] for m in B["avail"]}
        cells = [(v["name"], m["alt"], m["col"]) for v in B["asv"] for m in v["from"]]
        n = len(W[B["obscol"]])
        before = [[W[B["obscol"]][i], W[B["chcol"]][i]] + [W[av[a]][i] for a in alts] +
                  [W[v][i] for v in B["ind"]] +
                  [W[c][i] if W[av[a]][i] != "0" else "nan" for v, a, c in cells]
                  for i in range(n)]

        def op():
            lg = w2l_call(sc, df)
            w = ct.convert_long_to_wide(lg, list(B["ind"]), [v["name"] for v in B["asv"]], {},
                                        B["obscol"], B["altname"], B["chcol"])
            return w[[B["obscol"], B["chcol"]] + ["availability_%d" % a for a in alts] +
                     B["ind"] + ["%s_%d" % (v, a) for v, a, c in cells]]
    r, err = guarded(op)
    out = dict(rows=[]) if err else dict(rows=table_out(r)["rows"])
    return dict(kind="trip", dir=sc["dir"], before=before, out=out, err=err)


# ------------------------------------------------------------------ P06 ----
def run_valid(sc):
    if sc["dir"] == "l2w":
        df = l2w_frame(sc)
        r, err = guarded(l2w_call, sc, df)
        ev = dict(tab=spec_tab(sc["tab"]), A=sc["A"], colnames=[str(c) for c in df.columns])
    else:
        df = w2l_frame(sc)
        r, err = guarded(w2l_call, sc, df)
        ev = dict(W=sc["W"], B=sc["B"])
    ev.update(kind="valid", dir=sc["dir"], out=dict(ok=0 if err else 1), err=err)
    return ev


def spoil_l2w(rng, sc):
    T, A = sc["tab"], sc["A"]
    n = len(T["obs"])
    f = rng.choice(["none", "none", "dup", "nochoice", "twochoice", "move", "dropcol",
                    "badind", "badalt", "badsub", "badname", "obscol"])
    r = rng.randrange(n)
    if f == "dup":
        for key in ("obs", "alt", "ind"):
            T[key].append(T[key][r])
        T["ch"].append(0)
        for c in sc["cols"]:
            sc["cols"][c] = sc["cols"][c] + [sc["cols"][c][r]]
        sc["index"] = None
    elif f == "nochoice":
        T["ch"] = [0 if T["obs"][k] == T["obs"][r] else c for k, c in enumerate(T["ch"])]
    elif f == "twochoice":
        T["ch"] = [1 if T["obs"][k] == T["obs"][r] else c for k, c in enumerate(T["ch"])]
    elif f == "move":       # one observation two choices, another none
        o = T["obs"][r]
        zero = [k for k in range(n) if T["obs"][k] == o and T["ch"][k] == 0]
        other = [k for k in range(n) if T["obs"][k] != o and T["ch"][k] == 1]
        if zero and other:
            T["ch"][rng.choice(zero)] = 1
            T["ch"][rng.choice(other)] = 0
    elif f == "dropcol" and sc["cols"]:
        sc["drop"] = [rng.choice(sorted(sc["cols"]))]
    elif f == "badind":
        A["ind"] = A["ind"] + ["absent"]
    elif f == "badalt":
        A["alts"] = A["alts"] + ["absent"]
    elif f == "badsub":
        A["subset"] = A["subset"] + [dict(var="absent", alts=[T["alt"][0]])]
    elif f == "badname":
        A["names"] = [dict(alt=a, name="m%d" % a) for a in sorted(set(T["alt"]))] + \
            [dict(alt=77, name="ghost")]
    return sc


def spoil_w2l(rng, sc):
    W, B = sc["W"], sc["B"]
    n = len(W[B["obscol"]])
    f = rng.choice(["none", "none", "dupid", "blank", "unknown", "unavailable", "unchosen",
                    "ind", "avail", "asv", "ghost", "drop"])
    i = rng.randrange(n)
    if f == "dupid" and n > 1:
        W[B["obscol"]][i] = W[B["obscol"]][i - 1]
    elif f == "blank":
        W[B["chcol"]][i] = "nan"
    elif f == "unknown":
        W[B["chcol"]][i] = "55"
    elif f == "unavailable":
        col = [m["col"] for m in B["avail"] if str(m["alt"]) == W[B["chcol"]][i]][0]
        W[col][i] = "0"
    elif f == "unchosen":
        W["av_88"] = [rng.choice("01") for _ in range(n)]
        B["avail"].append(dict(alt=88, col="av_88"))
    elif f == "ind":
        B["ind"] = B["ind"] + ["absent"]
    elif f == "avail":
        B["avail"][0]["col"] = "absent"
    elif f == "asv":
        B["asv"].append({"name": "q", "from": [dict(alt=B["avail"][0]["alt"], col="absent")]})
    elif f == "ghost":
        B["asv"].append({"name": "q", "from": [dict(alt=91, col=B["avail"][0]["col"])]})
    elif f == "drop" and B["asv"] and B["asv"][0]["from"]:
        W.pop(B["asv"][0]["from"][0]["col"], None)
    return sc


def run(sc):
    ev = RUN[sc["kind"]](sc)
    if sc.get("src"):
        ev["src"] = sc["src"]
    return [ev]


RUN = dict(design=run_design, map=run_map, l2w=run_l2w, w2l=run_w2l, trip=run_trip, valid=run_valid)
NRAND = dict(P01=(300, 6000), P02=(300, 6000), P03=(300, 6000), P04=(300, 6000),
             P05=(400, 6000), P06=(900, 12000))


def scenarios(prop, tier, seed, gen):
    def tl(kind, f, g, **k):
        def make():
            sc = f(g)
            sc.update(kind=kind, src="tlc", **k)
            return sc
        return make

    items = []
    thorough = tier == "thorough"
    if prop == "P01":
        items += [tl("design", lambda g: dict(g, via="function"), g) for g in readgen(gen, "MC_Design")]
    elif prop == "P02":
        def f(g):
            T = gen_tab(g)
            al = sorted(set(T["alt"]))
            return dict(tab=T, nests=[al[1:], al[:1]] if len(al) > 1 else [al])
        items += [tl("map", f, g) for g in readgen(gen, "MC_Long")]
        if not thorough:
            items = items[seed % 3::3]
    elif prop == "P03":
        items += [tl("l2w", gen_l2w, g) for g in readgen(gen, "MC_Long") if valid_rows(g)]
    elif prop == "P04":
        items += [tl("w2l", gen_w2l, g) for g in readgen(gen, "MC_Wide")
                  if valid_wide(gen_w2l(g))]
    elif prop == "P05":
        for g in readgen(gen, "MC_Long"):
            if valid_rows(g) and {r["a"] for r in g} == {r["a"] for r in g if r["c"]}:
                items.append(tl("trip", gen_l2w, g, dir="lwl", ord=seed))
        items += [tl("trip", gen_w2l, g, dir="wlw") for g in readgen(gen, "MC_Wide")
                  if valid_wide(gen_w2l(g))]
    elif prop == "P06":
        items += [tl("valid", gen_l2w, g, dir="l2w") for g in readgen(gen, "MC_Long")]
        w = [tl("valid", gen_w2l, g, dir="w2l") for g in readgen(gen, "MC_Wide")]
        items += w if thorough else w[seed % 3::3]
    for k, m in enumerate(items):
        yield "%s-t%d" % (prop, k), m

    def rand(k):
        rng = random.Random("%s/%s/%s" % (prop, seed, k))
        if prop == "P01":
            return dict(rand_design(rng, k), kind="design")
        if prop == "P02":
            return dict(rand_map(rng, k), kind="map")
        if prop == "P03":
            return dict(rand_l2w(rng, k), kind="l2w")
        if prop == "P04":
            return dict(rand_w2l(rng, k), kind="w2l")
        if prop == "P05":
            if k % 2:
                sc = dict(rand_l2w(rng, k, all_chosen=True), kind="trip", dir="lwl", ord=k)
                sc["A"]["alts"] = sc["A"]["alts"] + [s["var"] for s in sc["A"]["subset"]]
                sc["A"]["subset"] = []
                return sc
            return dict(rand_w2l(rng, k), kind="trip", dir="wlw")
        if k % 2:
            return dict(spoil_l2w(rng, rand_l2w(rng, k)), kind="valid", dir="l2w")
        return dict(spoil_w2l(rng, rand_w2l(rng, k)), kind="valid", dir="w2l")

    for k in range(NRAND[prop][1 if thorough else 0]):
        yield "%s-r%d" % (prop, k), (lambda k=k: rand(k))
