"""C29: the JSON schema `reml gen-schema` publishes, against what the loader (`reml config check`, `reml train`) does,
over every option of every reduction, alone, nested and in pairs."""
import copy, itertools, json, os
import jsonschema
import cli
import pyeng
from cli import Scratch, read, reml, write
from pyeng import ensure

REML = cli.REML
BAD_REDUCTION = [5, "Coin", [], True, {"typename": "Nope"}, {"typename": "coin"}, {"typename": "Coin", "config": 5}, {"typename": "Coin", "config": {"nope": 1}}]
NS = (["Default", {"Name": "a"}, {"Name": ""}], ["a", 1, {"Nm": "a"}, {"Name": 1}, [], {}, True])
NUM = lambda *good: (list(good), ["1", True, [], {}, [1]])
BOOL = ([True, False], [0, 1, "true", [], {}])
# option -> (values the loader takes, values of the wrong JSON type or name)
OPTIONS = {
    "Coin": {"alpha": NUM(4.0, 1, 0.5), "beta": NUM(1.0, 2, 0.25), "l1Lambda": NUM(0.0, 1e-3), "l2Lambda": NUM(0, 0.5),
             "linkFunction": (["Identity", "Logistic"], ["identity", "", 1, {}, ["Identity"]]),
             "lossFunction": ([{"Squared": {}}, {"Logistic": {}}, {"Logistic": {"min_label": -1.0, "max_label": 1.0}}, {"Logistic": {"max_label": 2}}],
                              ["Squared", {"Hinge": {}}, {}, 1, [{"Squared": {}}], {"Logistic": {"min_label": "1"}}, {"Squared": {}, "Logistic": {}}])},
    "Binary": {"regressor": ([{"typename": "Coin"}, {"typename": "Coin", "config": {"alpha": 2.0}}], BAD_REDUCTION)},
    "CbAdf": {"cbType": (["mtr", "ips"], ["MTR", "dr", "", 1, {}, ["mtr"]]), "regressor": ([{"typename": "Coin"}], BAD_REDUCTION)},
    "CbExploreAdfGreedy": {"epsilon": NUM(0.05, 0, 1, 0.5), "cbAdf": ([{"typename": "CbAdf"}], BAD_REDUCTION)},
    "CbExploreAdfSoftmax": {"lambda": NUM(1.0, 0, 7), "uniformEpsilon": NUM(0.0, 0.5, 1), "cbAdf": ([{"typename": "CbAdf"}], BAD_REDUCTION)},
    "CbExploreAdfSquareCb": {"gammaScale": NUM(10.0, 0, 1), "gammaExponent": NUM(0.5, 0, 1), "uniformEpsilon": NUM(0.0, 0.5, 1),
                             "cbAdf": ([{"typename": "CbAdf"}, {"typename": "CbAdf", "config": {"cbType": "mtr"}}], BAD_REDUCTION)},
    "ElementwiseInteraction": {"one": NS, "two": NS, "keepOriginalFeatures": BOOL, "regressor": ([{"typename": "Coin"}], BAD_REDUCTION)},
    "Debug": {"id": (["", "x"], [1, True, {}]), "indent": ([0, 3], [-1, 0.5, "0", True]), "features": BOOL, "label": BOOL, "prediction": BOOL,
              "next": ([{"typename": "Coin"}, {"typename": "CbExploreAdfGreedy"}], BAD_REDUCTION)},
}
GLOBAL = {"numBits": ([4, 1, 18], [0.5, -1, "4", True, [4], {}]), "hashSeed": ([0, 7, 4294967295], [0.5, -1, "7", False, {}]), "constantFeatureEnabled": BOOL,
          "interactions": ([[], [["Default", {"Name": "a"}]], [[{"Name": "a"}, {"Name": "a"}, "Default"]]],
                           [["Default"], "Default", {}, [[1]], [["a"]], [[{"Nm": "a"}]], 5, [["Default", {"Name": 1}]]])}
# null is no option's way of saying "the default"
for _o in [*OPTIONS.values(), GLOBAL]:
    for _k, (_good, _bad) in _o.items():
        _o[_k] = (_good, list(_bad) + [None])
OPTIONS["Coin"]["lossFunction"][1].extend([{"Logistic": {"min_label": None}}, {"Logistic": {"max_label": None}}, {"Squared": None}])
OPTIONS["ElementwiseInteraction"]["one"][1].extend([{"Name": None}, {"Name": "a", "b": 1}, "default", "default_"])
OPTIONS["ElementwiseInteraction"]["two"][1].extend([{"Name": None}, {"Name": ["a"]}, {"name": "a"}])
GLOBAL["interactions"][1].extend([[None], [[None]], [[{"Name": None}]], [["Default", "default"]], [[["Default"]]]])
REQUIRED = {"ElementwiseInteraction": {"one": "Default", "two": {"Name": "a"}}, "Debug": {"next": {"typename": "Coin"}}}
# what may stand above a reduction
ABOVE = {"Coin": ["Binary", "CbAdf", "Debug", "ElementwiseInteraction"], "CbAdf": ["CbExploreAdfGreedy", "CbExploreAdfSoftmax", "CbExploreAdfSquareCb", "Debug"],
         "ElementwiseInteraction": ["Binary", "CbAdf", "Debug", "ElementwiseInteraction"], "Debug": ["Debug"]}
CHILD = {"Binary": "regressor", "CbAdf": "regressor", "ElementwiseInteraction": "regressor", "Debug": "next"}
_schema = None


def schema():
    global _schema
    if _schema is None:
        r = reml(["gen-schema"], "/")
        ensure(r.returncode == 0, lambda: "gen-schema fails: %r" % r.stderr[-300:])
        try:
            s = json.loads(r.stdout)
            jsonschema.Draft7Validator.check_schema(s)
        except Exception as e:
            raise pyeng.Violation("gen-schema prints no JSON schema: %s" % e)
        _schema = (s, jsonschema.Draft7Validator(s))
    return _schema


def doc(entry, g):
    return {"globalConfig": g, "entryReduction": entry}


def red(name, **kw):
    return {"typename": name, "config": {**copy.deepcopy(REQUIRED.get(name, {})), **kw}}


def wraps(name):
    """Every place the reduction can stand in: itself, and below one or two others."""
    yield lambda r: r
    for a in ABOVE.get(name, ["Debug"]):
        def one(r, a=a):
            return red(a, **{CHILD.get(a, "cbAdf"): r})
        yield one
        for b in ABOVE.get(a, ["Debug"])[:2]:
            yield lambda r, one=one, b=b: red(b, **{CHILD.get(b, "cbAdf"): one(r)})


def documents(th):
    """(document, must be accepted)"""
    out = []
    g4 = {"numBits": 4}
    for name, opts in OPTIONS.items():
        for w in wraps(name):
            for omit in itertools.product([0, 1], repeat=2):
                r = red(name)
                if omit[0] and name not in REQUIRED:
                    del r["config"]
                out.append((doc(w(r), {} if omit[1] else g4), True))
            for o, (good, bad) in opts.items():
                out += [(doc(w(red(name, **{o: v})), g4), True) for v in good]
                out += [(doc(w(red(name, **{o: v})), g4), False) for v in bad]
                for v in good[:1]:
                    out += [(doc(w(red(name, **{n: v})), g4), False) for n in (o + "x", o.upper(), o[:-1], "_" + o)]
            for bad in ("", "Nope", name.lower(), name + "x", 5, None):
                out.append((doc(w({"typename": bad, "config": {}}), g4), False))
        ks = list(opts)
        for a, b in itertools.combinations(ks, 2):
            for va, vb in itertools.product(opts[a][0], opts[b][0]):
                out.append((doc(red(name, **{a: va, b: vb}), g4), True))
            if th:
                for va, vb in itertools.chain(itertools.product(opts[a][0], opts[b][1]), itertools.product(opts[a][1], opts[b][0])):
                    out.append((doc(red(name, **{a: va, b: vb}), g4), False))
    coin = {"typename": "Coin"}
    for o, (good, bad) in GLOBAL.items():
        out += [(doc(coin, {**g4, o: v}), True) for v in good] + [(doc(coin, {**g4, o: v}), False) for v in bad]
        out += [(doc(coin, {**g4, n: good[0]}), False) for n in (o + "x", o.upper(), o[:-1])]
    for a, b in itertools.combinations(GLOBAL, 2):
        out += [(doc(coin, {**g4, a: va, b: vb}), True) for va, vb in itertools.product(GLOBAL[a][0], GLOBAL[b][0])]
    out += [({"entryReduction": coin}, False), ({"globalConfig": g4}, False), ({}, False), ([], False), (5, False), ("x", False), (None, False),
            ({**doc(coin, g4), "extra": 1}, False), ({**doc(coin, g4), "$schema": "x"}, None), (doc(coin, []), None), (doc([], g4), False), (doc(coin, 5), False)]
    # square-cb asks for the mtr estimator
    ips_below = lambda d: '"CbExploreAdfSquareCb"' in json.dumps(d) and '"ips"' in json.dumps(d)
    return [c for c in out if c[1] is not None and not (c[1] and ips_below(c[0]))]


def run_doc(case, t):
    d, good = case
    _, v = schema()
    with Scratch() as s:
        write(s + "/c", json.dumps(d))
        r = reml(["config", "check", "c"], s)
    ensure(r.returncode in (0, 1), lambda: "config check ends with %d: %r" % (r.returncode, r.stderr[-300:]))
    loads, valid = r.returncode == 0, v.is_valid(d)
    t.eval()
    t.key((json.dumps(d), loads, valid))
    t.sample("%s loads=%s valid=%s" % (json.dumps(d)[:160], loads, valid))
    if good:
        ensure(loads, lambda: "the loader refuses a configuration: %r" % r.stderr[-300:])
        ensure(valid, lambda: "the schema refuses a configuration the loader accepts: %s" % next(v.iter_errors(d)).message[:300])
    else:
        ensure(not loads, "the loader accepts an unknown or wrongly typed option")
        ensure(not valid, "the schema accepts an unknown or wrongly typed option")


def run_names(case, t):
    """The schema knows exactly the reductions the loader knows, with exactly the options a new configuration shows."""
    s, v = schema()
    r = reml(["config", "new", "Nope"], "/")
    ensure(r.returncode == 1, "config new knows a reduction that does not exist")
    refs = [x["$ref"].split("/")[-1] for x in s["definitions"]["any_reduction_config"]["oneOf"]]
    said = r.stderr.decode().split("Available reductions are: ")
    if len(said) == 2:
        listed = said[1].split("\n")[0].split(", ")
        ensure(sorted(refs) == sorted(listed), lambda: "the schema lists %s, the program %s" % (refs, listed))
    ensure(len(refs) == len(set(refs)), lambda: "the schema lists a reduction twice: %s" % refs)
    ensure(set(OPTIONS) <= set(refs), lambda: "reductions are missing: %s" % (set(OPTIONS) - set(refs)))
    for n in refs:
        r = reml(["config", "new", n], "/")
        ensure(r.returncode == 0, lambda: "config new %s fails" % n)
        c = json.loads(r.stdout)
        props = s["definitions"][n]["properties"]["config"].get("properties", {})
        ensure(set(props) == set(c["entryReduction"]["config"]), lambda: "%s: the schema has %s, a new configuration %s" % (n, sorted(props), sorted(c["entryReduction"]["config"])))
        for k, p in props.items():
            if k in REQUIRED.get(n, {}):
                continue
            ensure("default" in p and p["default"] == c["entryReduction"]["config"][k], lambda: "%s.%s: default %r in the schema, %r in a new configuration" % (n, k, p.get("default"), c["entryReduction"]["config"][k]))
        gp = s["definitions"]["GlobalConfig"]["properties"]
        ensure(set(gp) == set(c["globalConfig"]), "global options of the schema and of a new configuration differ")
        for k, p in gp.items():
            ensure(p.get("default") == c["globalConfig"][k], lambda: "%s: default %r in the schema, %r in a new configuration" % (k, p.get("default"), c["globalConfig"][k]))
        if n != "Debug":
            ensure(v.is_valid(c), lambda: "the schema refuses `config new %s`" % n)
        t.eval()
        t.key(n)


FILES = {"simple": ("vw-text", cli.VWPM), "cb": ("dsjson", cli.DS)}
KIND = {"Coin": "simple", "ElementwiseInteraction": "simple", "CbAdf": "cb", "CbExploreAdfGreedy": "cb", "CbExploreAdfSoftmax": "cb", "CbExploreAdfSquareCb": "cb"}


def run_default(case, t):
    """Leaving options out and spelling out the defaults the schema states give the same predictions."""
    name, options, gopts = case
    s, _ = schema()
    props = s["definitions"][name]["properties"]["config"]["properties"]
    gp = s["definitions"]["GlobalConfig"]["properties"]
    base = {k: v for k, v in REQUIRED.get(name, {}).items()}
    got = []
    fmt, lines = FILES[KIND[name]]
    for spelled in (False, True):
        e = dict(base, **({o: props[o]["default"] for o in options} if spelled else {}))
        g = {o: gp[o]["default"] for o in gopts} if spelled else {}
        with Scratch() as d:
            write(d + "/c", json.dumps(doc({"typename": name, "config": e}, g)))
            write(d + "/d", "".join(l + "\n" for l in lines * 2))
            r = reml(["--quiet", "train", "-d", "d", "-c", "c", "-o", "m", "-p", "p", "--data-format", fmt], d)
            ensure(r.returncode == 0, lambda: "training fails: %r" % r.stderr[-300:])
            got.append(read(d + "/p"))
    t.eval()
    t.key((name, tuple(options), tuple(gopts), got[0]))
    ensure(got[0] == got[1], lambda: "%s: spelling out the defaults of %s %s changes the predictions: %r instead of %r" % (name, options, gopts, got[1][:400], got[0][:400]))


def build(prop, tier):
    th = tier == "thorough"
    docs = documents(th)
    seen, uniq = set(), []
    for d in docs:
        k = json.dumps(d[0], sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(d)
    defaults = []
    for n in KIND:
        opts = [o for o in OPTIONS[n] if o not in REQUIRED.get(n, {})]
        for k in range(len(opts) + 1):
            for c in itertools.combinations(opts, k):
                defaults.append((n, list(c), []))
        for c in ([g] for g in GLOBAL):
            defaults.append((n, opts, c))
        defaults.append((n, opts, list(GLOBAL)))
    return (["%d configurations: every option value of every reduction, right and wrong, misspelt and unknown names, in every place up to two layers down; "
             "every pair of right values%s; global options" % (len(uniq), " and of a right and a wrong one" if th else ""),
             "names, options and defaults of every reduction the program lists; every subset of options spelled out with the schema's defaults over %d learned examples" % (2 * len(cli.VWPM))],
            [("documents", uniq, run_doc), ("names", [0], run_names), ("defaults", defaults, run_default)])


if __name__ == "__main__":
    os.environ["RUST_BACKTRACE"] = "0"
    pyeng.main(build)
