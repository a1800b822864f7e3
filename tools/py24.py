"""C24: the Python package driven through every operation sequence up to a depth, in lockstep with the core library
behind `mc ORACLE`, whose features never come from a recycled container."""
import itertools, json, os, struct, sys
import pyeng
from pyeng import ORACLE, ensure, seqs

sys.path.insert(0, pyeng.TARGET + "/python-stage")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cli  # stacks and example alphabets

_R = None


def R():
    """The package under test, loaded in each worker on its own."""
    global _R
    if _R is None:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        import reductionml
        _R = reductionml
    return _R


def fmt(f):
    ft = R().FormatType
    return {"vw": ft.VwText, "json": ft.Json, "ds": ft.DsJson}[f]


def num(x):
    x = float(x)
    return x if x == x and abs(x) != float("inf") else str(x)


def pred(p):
    r = R()
    if isinstance(p, r.ScalarPred):
        return {"Scalar": [num(p.prediction), num(p.raw_prediction)]}
    if isinstance(p, r.ActionScoresPred):
        return {"ActionScores": [[a, num(v)] for a, v in p.value]}
    if isinstance(p, r.ActionProbsPred):
        return {"ActionProbs": [[a, num(v)] for a, v in p.value]}
    raise RuntimeError("prediction %r" % (p,))


def lab(l):
    if l is None:
        return None
    if isinstance(l, R().SimpleLabel):
        return {"Simple": [num(l.value), num(l.weight)]}
    return {"CB": [l.action, num(l.cost), num(l.probability)]}


class Py:
    """Runs the oracle's operations through the Python package."""

    def __init__(self):
        self.w, self.p, self.f, self.l, self.s, self.j = {}, {}, {}, {}, {}, {}

    def run(self, o):
        r, k = R(), o["op"]
        if k == "reset":
            self.__init__()
        elif k == "new":
            c = o["config"]
            self.w[o["w"]] = r.Workspace.create_from_config(json.loads(c) if isinstance(c, str) else c)
        elif k == "load":
            d = bytes.fromhex(o["hex"]) if "hex" in o else self.s[o["s"]]
            self.w[o["w"]] = r.Workspace.create_from_model({"b": bytes, "a": bytearray, "l": list}[o.get("as", "l")](d))
        elif k == "load_json":
            self.w[o["w"]] = r.Workspace.create_from_json_model(o["json"] if "json" in o else self.j[o["s"]])
        elif k == "save":
            self.s[o["s"]] = self.w[o["w"]].serialize()
            return bytes(self.s[o["s"]]).hex()
        elif k == "save_json":
            self.j[o["s"]] = self.w[o["w"]].serialize_to_json()
            return self.j[o["s"]]
        elif k == "parser":
            self.p[o["p"]] = self.w[o["w"]].create_parser(fmt(o["format"]))
        elif k == "parser_of":
            import reductionml._reductionml as m
            self.p[o["p"]] = m.create_parser(fmt(o["format"]), r.FeaturesType.SparseCbAdf if o["cb"] else r.FeaturesType.SparseSimple,
                                             r.LabelType.CB if o["cb"] else r.LabelType.Simple, o["seed"], o["bits"])
        elif k == "parse":
            t = o["text"]
            f, l = self.p[o["p"]].parse(json.loads(t) if o.get("dict") else t)
            self.f[o["f"]], self.l[o["f"]] = f, l
            return lab(l)
        elif k == "simple":
            self.l[o["f"]] = r.SimpleLabel(o["value"], o["weight"]) if o["weight"] != 1.0 else r.SimpleLabel(o["value"])
            return lab(self.l[o["f"]])
        elif k == "cb":
            self.l[o["f"]] = r.CbLabel(o["action"], o["cost"], o["prob"])
            return lab(self.l[o["f"]])
        elif k == "predict":
            return pred(self.w[o["w"]].predict(self.f[o["f"]]))
        elif k == "learn":
            self.w[o["w"]].learn(self.f[o["f"]], self.l[o["l"]])
        elif k == "ptl":
            return pred(self.w[o["w"]].predict_then_learn(self.f[o["f"]], self.l[o["l"]]))
        elif k == "empty":
            self.f[o["f"]] = r.CbAdfFeatures() if o["cb"] else r.SparseFeatures()
            self.l.setdefault(o["f"], None)
        elif k == "drop":
            self.f.pop(o["f"], None)
        elif k == "types":
            t = self.w[o["w"]].entry_reduction_types
            n = lambda x: None if x is None else repr(x).split(".")[-1]
            return [n(t.input_label_type), n(t.output_prediction_type), n(t.input_features_type), n(t.output_label_type),
                    n(t.input_prediction_type), n(t.output_features_type)]
        else:
            raise RuntimeError("operation " + k)


def guarded(py, o):
    try:
        return {"ok": py.run(o)}
    except KeyError as e:  # an operation before this one left nothing to work on; it is compared first
        return {"err": "nothing at %s" % e}
    except (RuntimeError, MemoryError, KeyboardInterrupt, SystemExit) as e:
        if isinstance(e, RuntimeError) and o["op"] in ("parse", "new", "load", "load_json", "predict", "learn", "ptl", "save", "save_json"):
            return {"err": str(e)}
        raise
    except BaseException as e:  # the core library's panics arrive as PanicException
        if type(e).__name__ != "PanicException" and not isinstance(e, (TypeError, ValueError, OverflowError, UnicodeError)):
            raise
        return {"err": "%s: %s" % (type(e).__name__, e)}


def norm(x):
    if isinstance(x, list) and len(x) == 6 and all(y is None or isinstance(y, str) for y in x):
        return [None if y is None else y.lower() for y in x]
    return x


def lockstep(ops, t, what):
    """The oracle predicts and learns separately where Python uses the combined call."""
    mine = Py()
    got = [guarded(mine, o) for o in ops]
    theirs, at = [], []
    for o in ops:
        at.append(len(theirs))
        if o["op"] == "ptl":
            theirs += [dict(o, op="predict"), dict(o, op="learn")]
        elif o["op"] == "drop":
            theirs.append(dict(op="drop", f=o["f"]))
        else:
            theirs.append(o)
    want = ORACLE.run(theirs)
    for i, o in enumerate(ops):
        w = want[at[i]]
        if o["op"] == "ptl" and "ok" in w:
            l = want[at[i] + 1]
            w = w if "ok" in l else l
        g = got[i]
        t.step()
        ensure(("ok" in g) == ("ok" in w), lambda: "%s: operation %d %s: Python %s, the core library %s" % (what, i, o, g, w))
        if "ok" in g:
            a, b = norm(g["ok"]), norm(w["ok"])
            ensure(a == b, lambda: "%s: operation %d %s: Python %s, the core library %s" % (what, i, o, str(a)[:300], str(b)[:300]))
        else:
            t.notes["operations refused by both"] += 1
    t.eval()
    return got


# ---- spaces ------------------------------------------------------------------------------------------------------

def alphabet(stack, rich):
    config, f, lines, _ = cli.STACKS[stack]
    cb = cli.ORFMT[f] != "vw" and '"typename": "Cb' in json.dumps(config)
    al = []
    slots = (0, 1)
    for s in slots:
        for e in range(3 if rich else 2):
            al.append(("parse", s, e + s))  # slot 1 sees other examples than slot 0, with overlap
        al += [("ptl", s), ("drop", s)]
    al += [("learn", 0), ("predict", 0), ("learn", 1), ("predict", 1), ("empty", 0), ("savetrip",), ("jsontrip",), ("cross",)]
    return al, cb


def expand(stack, seq):
    """An abstract sequence as concrete operations; operations on empty slots are left out."""
    config, f, lines, _ = cli.STACKS[stack]
    cb = "Cb" in config["entryReduction"]["typename"]
    ops = [{"op": "reset"}, {"op": "new", "w": 0, "config": json.dumps(config)}, {"op": "parser", "w": 0, "p": 0, "format": cli.ORFMT[f]}]
    have, labs = set(), set()
    for a in seq:
        k = a[0]
        if k == "parse":
            ops.append({"op": "parse", "p": 0, "f": a[1], "text": lines[a[2] % len(lines)]})
            have.add(a[1]), labs.add(a[1])
        elif k in ("learn", "ptl", "predict"):
            if a[1] not in have or (k != "predict" and a[1] not in labs):
                return None
            ops.append({"op": k, "w": 0, "f": a[1], "l": a[1]})
        elif k == "cross":  # features of one slot with the label of the other
            if 0 not in have or 1 not in labs or cb:
                return None
            ops.append({"op": "learn", "w": 0, "f": 0, "l": 1})
        elif k == "drop":
            if a[1] not in have:
                return None
            ops.append({"op": "drop", "f": a[1]})
            have.discard(a[1])
        elif k == "empty":
            if cb:
                return None
            ops.append({"op": "empty", "f": 0, "cb": cb})
            have.add(0)
        elif k == "savetrip":
            ops += [{"op": "save", "w": 0, "s": 0}, {"op": "load", "w": 0, "s": 0}]
        elif k == "jsontrip":
            ops += [{"op": "save_json", "w": 0, "s": 0}, {"op": "load_json", "w": 0, "s": 0}]
    for s in sorted(have):
        ops.append({"op": "predict", "w": 0, "f": s})
    ops += [{"op": "parse", "p": 0, "f": 2, "text": lines[0]}, {"op": "predict", "w": 0, "f": 2}, {"op": "save", "w": 0, "s": 9}]
    return ops


class Histories:
    """Lazily indexed sequences."""

    def __init__(self, stacks, depth, rich):
        self.al = {s: alphabet(s, rich)[0] for s in stacks}
        self.stacks, self.depth = stacks, depth
        self.n = len(next(iter(self.al.values())))
        self.per = sum(self.n ** d for d in range(depth + 1))

    def __len__(self):
        return self.per * len(self.stacks)

    def __getitem__(self, i):
        s = self.stacks[i // self.per]
        i %= self.per
        d = 0
        while i >= self.n ** d:
            i -= self.n ** d
            d += 1
        seq = []
        for _ in range(d):
            seq.append(self.al[s][i % self.n])
            i //= self.n
        return dict(stack=s, seq=seq[::-1])


def run_history(case, t):
    ops = expand(case["stack"], case["seq"])
    if ops is None:
        t.notes["sequences with an operation on an empty slot"] += 1
        return
    got = lockstep(ops, t, case["stack"])
    t.key((case["stack"], case["seq"])), t.state((case["stack"], got[-1]["ok"]))
    t.sample("%s %s" % (case["stack"], case["seq"]))


def run_ops(case, t):
    lockstep(case["ops"], t, case["what"])
    t.key(case["ops"])
    t.sample(case["what"])


def dict_cases():
    """JSON given as a dict: keys in order, so that the text is the same either way."""
    res = []
    for s in ("coin-json", "softmax", "greedy", "squarecb", "cb-ips"):
        c, f, lines, _ = cli.STACKS[s]
        ls = [json.dumps(json.loads(l), sort_keys=True) for l in lines]
        for order in itertools.permutations(range(len(ls)), 2):
            for dicts in itertools.product((False, True), repeat=3):
                ops = [{"op": "reset"}, {"op": "new", "w": 0, "config": json.dumps(c)}, {"op": "parser", "w": 0, "p": 0, "format": cli.ORFMT[f]}]
                for k, i in enumerate(order + order[:1]):
                    ops += [{"op": "parse", "p": 0, "f": k, "text": ls[i], "dict": dicts[k]}, {"op": "ptl", "w": 0, "f": k, "l": k}]
                ops.append({"op": "save", "w": 0, "s": 0})
                res.append(dict(what="dict input " + s, ops=ops))
    return res


def geometry_cases(th):
    """Every width and edge seeds of the configuration, through the workspace's own parser and back through a model."""
    res = []
    for s in ("coin", "coin-json", "cb-ips"):
        c, f, lines, _ = cli.STACKS[s]
        for bits in range(1, 24 if th else 22):
            for seed in (0, 7, 256, 65536, 2**31, 2**32 - 1):
                if seed not in (0, 65536) and bits % 5 != 1:
                    continue
                d = dict(c, globalConfig=dict(c["globalConfig"], numBits=bits, hashSeed=seed))
                ops = [{"op": "reset"}, {"op": "new", "w": 0, "config": json.dumps(d)}, {"op": "parser", "w": 0, "p": 0, "format": cli.ORFMT[f]}]
                for k, line in enumerate(lines[:3]):
                    ops += [{"op": "parse", "p": 0, "f": k, "text": line}, {"op": "ptl", "w": 0, "f": k, "l": k}]
                ops += [{"op": "save", "w": 0, "s": 0}, {"op": "load", "w": 1, "s": 0}, {"op": "parser", "w": 1, "p": 1, "format": cli.ORFMT[f]},
                        {"op": "parse", "p": 1, "f": 0, "text": lines[0]}, {"op": "ptl", "w": 1, "f": 0, "l": 0}, {"op": "save", "w": 1, "s": 1}]
                res.append(dict(what="%s of %d bits, seed %d" % (s, bits, seed), ops=ops))
    return res


def error_cases():
    """Operations the core library refuses, and ones it accepts, around good ones."""
    res = []
    texts = {"vw": cli.VW + ["x | a", "1 2 3 4 | a", "", "| a", "1 |a:x b", "1 |", " | :1"],
             "json": cli.JS[:2] + cli.JCB[:2] + ["{", "{}", "[]", "1", '{"features":1}', '{"features":{"n":["a",1]}}', '{"label":"x","features":{"n":[1]}}', '{"label":1,"features":{"n":{"a":null}}}',
                                                   '{"label":{"weight":2},"features":{"n":[1]}}', '{"actions":[]}', '{"actions":1}', '{"label":{"action":5},"actions":[{"a":[1]}]}'],
             "ds": cli.DS[:2] + ["{", "{}", "[]", '{"c":{}}', '{"c":{"_multi":[]},"_label_cost":1}', '{"c":{"_multi":[{}]},"_label_cost":"x"}']}
    for f, ts in texts.items():
        for cb in (False, True) if f != "ds" else (True,):
            for a in ts:
                for b in ts[:3]:
                    ops = [{"op": "reset"}, {"op": "parser_of", "p": 0, "format": f, "cb": cb, "seed": 0, "bits": 4}]
                    for w, entry in enumerate((cli.COIN, cli.cbadf("ips"))):
                        ops.append({"op": "new", "w": w, "config": json.dumps(cli.cfg(entry))})
                    ops += [{"op": "parse", "p": 0, "f": 1, "text": b}, {"op": "parse", "p": 0, "f": 0, "text": a}, {"op": "parse", "p": 0, "f": 1, "text": b}]
                    res.append((ops, f, cb, a, b))
    out = []
    for ops, f, cb, a, b in res:
        out.append(dict(what="refused input %s cb=%s" % (f, cb), ops=ops, use=True))
    return out


def run_error(case, t):
    """Parse results decide what can be done with them next; wrong pairings of features, labels and stacks included."""
    first = lockstep(case["ops"], t, case["what"])
    ops = list(case["ops"])
    for slot, at in ((0, len(ops) - 2), (1, len(ops) - 1)):
        if "ok" in first[at]:
            for w in (0, 1):
                ops.append({"op": "predict", "w": w, "f": slot})
                if first[at]["ok"] is not None:
                    ops += [{"op": "ptl", "w": w, "f": slot, "l": slot}, {"op": "learn", "w": w, "f": slot, "l": slot}]
    ops += [{"op": "save", "w": 0, "s": 0}, {"op": "save", "w": 1, "s": 1}]
    lockstep(ops, t, case["what"])
    t.key(ops)


def config_cases(th):
    res = []
    for text in cli.config_texts(th):
        try:
            d = json.loads(text)
        except ValueError:
            continue
        # a Python value of another type where true or false is expected is converted by the bridge (pythonize)
        if not isinstance(d, dict) or not isinstance(d.get("globalConfig", {}).get("constantFeatureEnabled", True), bool):
            continue
        res.append(dict(what="configuration", ops=[{"op": "reset"}, {"op": "new", "w": 0, "config": text}], more=True))
    for c in LETTERS:
        for name in (c, c + "x", "x" + c, "x" + c + "y"):
            d = {"globalConfig": {"numBits": 4, "interactions": [[{"Name": name}, "Default"]]}, "entryReduction": {"typename": "ElementwiseInteraction", "config": {
                "one": {"Name": name}, "two": {"Name": "a"}, "regressor": {"typename": "Debug", "config": {"id": name, "next": {"typename": "Coin"}}}}}}
            res.append(dict(what="configuration naming %r" % name, ops=[{"op": "reset"}, {"op": "new", "w": 0, "config": json.dumps(d)}], more=True))
    return res


# every character of ASCII and some beyond it
LETTERS = [chr(i) for i in range(128)] + list("\x80\x85\xa0\xe9\u200b\u2028\u3000\ufeff\ufffd\U0001f600\U0010ffff")


def run_config(case, t):
    g = lockstep(case["ops"], t, case["what"])
    t.key(case["ops"])
    if "ok" in g[1]:
        t.notes["accepted configurations"] += 1
        ops = case["ops"] + [{"op": "types", "w": 0}, {"op": "save", "w": 0, "s": 0}, {"op": "save_json", "w": 0, "s": 0}]
        types = lockstep(case["ops"] + [{"op": "types", "w": 0}], t, case["what"])[-1]["ok"]
        if types[0].lower() != "binary":
            f, text = ("vw", cli.VWE[0]) if types[0].lower() == "simple" else ("json", cli.JCB[1])
            ops += [{"op": "parser", "w": 0, "p": 0, "format": f}, {"op": "parse", "p": 0, "f": 0, "text": text}, {"op": "ptl", "w": 0, "f": 0, "l": 0},
                    {"op": "predict", "w": 0, "f": 0}, {"op": "save", "w": 0, "s": 0}, {"op": "load_json", "w": 1, "s": 0}, {"op": "save", "w": 1, "s": 1}]
        lockstep(ops, t, case["what"])


def load_cases():
    """Model bytes as list, bytes and bytearray, whole, cut and damaged."""
    res = []
    for s in ("coin", "squarecb"):
        m = cli.trained(s, 2)
        for kind in "lba":
            for data in [m] + [m[:k] for k in range(0, len(m), 7)] + [b"", b"x" * 40]:
                ops = [{"op": "reset"}, {"op": "load", "w": 0, "hex": data.hex(), "as": kind}]
                if data is m:
                    ops += [{"op": "save", "w": 0, "s": 0}, {"op": "save_json", "w": 0, "s": 0}]
                res.append(dict(what="load %s" % s, ops=ops))
    return res


def label_cases():
    vals = [0.0, -0.0, 1.0, -1.5, 0.1, 1e-10, 3.4e38, 16777217.0]
    res = []
    for v in vals:
        for w in vals:
            res.append(dict(what="label", ops=[{"op": "reset"}, {"op": "simple", "f": 0, "value": v, "weight": w}]))
            for a in (0, 1, 7, 2 ** 32):
                res.append(dict(what="label", ops=[{"op": "reset"}, {"op": "cb", "f": 0, "action": a, "cost": v, "prob": w}]))
            for a in (0, 1, 2) if v < 1e9 else ():  # no overflow: the bits of a NaN are not fixed
                res.append(dict(what="own label", ops=[
                    {"op": "reset"}, {"op": "new", "w": 0, "config": json.dumps(cli.cfg(cli.COIN))}, {"op": "new", "w": 1, "config": json.dumps(cli.cfg(cli.cbadf("ips")))},
                    {"op": "parser", "w": 0, "p": 0, "format": "vw"}, {"op": "parser", "w": 1, "p": 1, "format": "json"},
                    {"op": "parse", "p": 0, "f": 0, "text": cli.VW[0]}, {"op": "parse", "p": 1, "f": 1, "text": cli.JCB[1]},
                    {"op": "simple", "f": 8, "value": v, "weight": 1.0 if w > 1e30 else w}, {"op": "learn", "w": 0, "f": 0, "l": 8}, {"op": "predict", "w": 0, "f": 0},
                    {"op": "cb", "f": 9, "action": a, "cost": v, "prob": 0.5}, {"op": "ptl", "w": 1, "f": 1, "l": 9}, {"op": "predict", "w": 1, "f": 1},
                    {"op": "save", "w": 1, "s": 1}]))
    return res


def run_objects(case, t):
    r, v, w = R(), case["v"], case["w"]
    f = lambda x: struct.unpack("f", struct.pack("f", x))[0]
    ns = {k: getattr(r, k) for k in ("SimpleLabel", "CbLabel", "ScalarPred", "ActionScoresPred", "ActionProbsPred")}
    same = lambda x, y, ks: all(getattr(x, k) == getattr(y, k) for k in ks)
    for make, ks, want in ((lambda: r.SimpleLabel(v, w), ("value", "weight"), (f(v), f(w))), (lambda: r.CbLabel(3, v, w), ("action", "cost", "probability"), (3, f(v), f(w))),
                           (lambda: r.ScalarPred(v, w), ("prediction", "raw_prediction"), (f(v), f(w))),
                           (lambda: r.ActionScoresPred([(1, v), (0, w)]), ("value",), ([(1, f(v)), (0, f(w))],)),
                           (lambda: r.ActionProbsPred([(1, v), (0, w)]), ("value",), ([(1, f(v)), (0, f(w))],))):
        x = make()
        ensure(tuple(getattr(x, k) for k in ks) == want, lambda: "%r holds %s, given %s" % (x, [getattr(x, k) for k in ks], want))
        g = {k: (lambda y: y) for k in ()}
        y = eval(repr(x), dict(ns))
        ensure(all([f(a) if isinstance(a, float) else a for a in [getattr(y, k)]] == [getattr(x, k)] for k in ks), lambda: "%r does not read back as itself" % x)
        t.eval()
    t.key((v, w))


def build(prop, tier):
    th = tier == "thorough"
    deep = ["coin", "squarecb"]
    rest = [s for s in cli.STACKS if s not in deep]
    d1, d2 = (5, 4) if th else (4, 3)
    h1, h2 = Histories(deep, d1, th), Histories(rest, d2, th)
    vals = [0.0, 1.0, -1.5, 0.1, 1e-10, 3.4e38, 16777216.0, 1e20]
    bounds = ["every sequence of up to %d operations on %s and %d on the other %d stacks over %d operations: parsing into two slots, predicting, learning, dropping, empty features, save/load, JSON" %
              (d1, ", ".join(deep), d2, len(rest), h1.n), "JSON as text and as dict, every width of 1 to %d bits with edge seeds, refused inputs with wrong pairings of features and stacks, configurations, model bytes cut and as list, bytes and bytearray, labels" % (23 if th else 21)]
    errs = error_cases()
    return bounds, [("histories-deep", h1, run_history), ("histories", h2, run_history), ("dict-input", dict_cases(), run_ops), ("geometry", geometry_cases(th), run_ops), ("refused", errs, run_error),
                    ("configurations", config_cases(th), run_config), ("model-bytes", load_cases(), run_ops), ("labels", label_cases(), run_ops),
                    ("objects", [dict(v=v, w=w) for v in vals for w in vals], run_objects)]


if __name__ == "__main__":
    os.environ["RUST_BACKTRACE"] = "0"
    pyeng.main(build, fresh=True)
