"""The real `reml` program, run over every combination of what is listed: C21, and the command line parts of C02, C19,
C20, C25 and C26. What a run must produce is computed by the core library through `mc ORACLE`, example by example,
with separate calls for predicting and learning."""
import functools, itertools, json, math, os, re, shutil, struct, subprocess, sys, tempfile
import pyeng
from pyeng import ORACLE, ensure, product, seqs

REML = pyeng.TARGET + "/repo/debug/reml"
G4 = {"numBits": 4}
COIN = {"typename": "Coin", "config": {}}


def cbadf(t="mtr", **kw):
    return {"typename": "CbAdf", "config": {"cbType": t, "regressor": {"typename": "Coin", "config": kw}}}


def cfg(entry, **g):
    return {"globalConfig": {**G4, **g}, "entryReduction": entry}


VW = ["1 | a:1 b", "-1 | b:0.5", "0.5 |n a c:2", "2 2.5 | a b c", "-0.5 |n :2 :-1 x |m a"]
VWPM = ["1 | a:1 b", "-1 | b:0.5", "-1 |n a c:2", "1 0.5 | a b c", "-1 |n :2 :-1 x |m a"]
VWE = ["1 |a 0:1 1:2 |b 0:2 1:3", "-1 |a 0:1 |b 0:-1 1:1", "0.5 |b 0:1 |c x"]
JS = ['{"label":1,"features":{":default":{"a":1,"b":true},"n":[1,2.5]}}', '{"label":{"value":-1,"weight":2},"features":{"n":{"a":"v"}}}',
      '{"label":0.5,"features":{"n":["x","y"]}}', '{"features":{"m":{"a":2}},"label":-2}']


def ds(action, cost, prob, shared, acts):
    d = {"_label_cost": cost, "_label_probability": prob, "_label_Action": action, "_labelIndex": action - 1,
         "a": list(range(1, len(acts) + 1)), "c": {**shared, "_multi": acts}, "p": [round(1 / len(acts), 3)] * len(acts)}
    return json.dumps(d)


DS = [ds(1, -1, 0.5, {}, [{"x": 1}, {"y": "k"}]), ds(2, 0, 0.25, {"u": {"v": 1}}, [{"x": 2}, {"x": 1}, {"z": {"w": 1}}]),
      ds(1, -0.5, 0.8, {}, [{"z": 1}]), ds(2, 1, 0.5, {"w": 1}, [{"x": 1}, {"y": "k"}]), ds(3, -2, 0.1, {"w": 2}, [{"x": 1}, {"y": "k"}, {"x": 3, "y": "j"}])]
JCB = ['{"label":{"action":0,"cost":-1,"probability":0.5},"shared":{"s":{"u":1}},"actions":[{"a":{"x":1}},{"a":{"y":1}}]}',
       '{"label":{"action":1,"cost":0.5,"probability":0.25},"actions":[{"a":{"x":1}},{"a":{"y":2}},{"b":[1,2]}]}',
       '{"label":{"action":0,"cost":0,"probability":1},"shared":{"s":{"u":"k"}},"actions":[{"a":{"x":-1}}]}']

# name -> (configuration, format, lines, metrics the predictions allow)
STACKS = {
    "coin": (cfg(COIN), "vw-text", VW, ["mse", "parsed_features", "example_number"]),
    "coin-opts": (cfg({"typename": "Coin", "config": {"alpha": 2.0, "beta": 0.5, "l2Lambda": 0.01}}, hashSeed=7, constantFeatureEnabled=False,
                      interactions=[[{"Name": "n"}, {"Name": "n"}], ["Default", {"Name": "m"}]]), "vw-text", VW, ["mse", "parsed_features"]),
    "coin-json": (cfg(COIN, hashSeed=3, interactions=[[{"Name": "n"}, "Default"]]), "json", JS, ["mse", "parsed_features"]),
    "elementwise": (cfg({"typename": "ElementwiseInteraction", "config": {"one": {"Name": "a"}, "two": {"Name": "b"}, "keepOriginalFeatures": True,
                         "regressor": COIN}}), "vw-text", VWE, ["mse", "parsed_features"]),
    "cb-mtr": (cfg(cbadf("mtr")), "dsjson", DS, ["parsed_features"]),
    "cb-ips": (cfg(cbadf("ips"), interactions=[["Default", "Default"]]), "dsjson", DS, ["parsed_features"]),
    "greedy": (cfg({"typename": "CbExploreAdfGreedy", "config": {"epsilon": 0.2, "cbAdf": cbadf("mtr")}}), "dsjson", DS, ["ips", "parsed_features"]),
    "softmax": (cfg({"typename": "CbExploreAdfSoftmax", "config": {"lambda": 1.5, "uniformEpsilon": 0.1, "cbAdf": cbadf("ips")}}), "json", JCB,
                ["ips", "parsed_features", "example_number"]),
    "squarecb": (cfg({"typename": "CbExploreAdfSquareCb", "config": {"gammaScale": 5.0, "gammaExponent": 0.5, "uniformEpsilon": 0.05, "cbAdf": cbadf("mtr")}}),
                 "dsjson", DS, ["ips", "parsed_features"]),
}
ORFMT = {"vw-text": "vw", "json": "json", "dsjson": "ds"}


@functools.lru_cache(maxsize=4000)
def expect(stack, lines):
    """What the core library says about training on these lines: predictions, feature counts, labels and the model."""
    config, fmt, _, _ = STACKS[stack]
    ops = [{"op": "reset"}, {"op": "new", "w": 0, "config": json.dumps(config)}, {"op": "parser", "w": 0, "p": 0, "format": ORFMT[fmt]}]
    for l in lines:
        ops += [{"op": "parse", "p": 0, "f": 0, "text": l + "\n" if fmt != "vw-text" else l}, {"op": "count", "f": 0},
                {"op": "predict", "w": 0, "f": 0}, {"op": "learn", "w": 0, "f": 0, "l": 0}]
    ops.append({"op": "save", "w": 0, "s": 0})
    r = ORACLE.run(ops)
    for x in r:
        if "err" in x:
            raise RuntimeError("oracle: %s for %s %s" % (x["err"], stack, lines))
    r = [x["ok"] for x in r]
    per = [r[3 + 4 * i: 7 + 4 * i] for i in range(len(lines))]
    return dict(labels=[p[0] for p in per], counts=[p[1] for p in per], preds=[p[2] for p in per], model=bytes.fromhex(r[-1]))


def nums(x):
    """Every number in a value, in order."""
    if isinstance(x, dict):
        return [n for v in x.values() for n in nums(v)]
    if isinstance(x, list):
        return [n for v in x for n in nums(v)]
    return [x]


def f32(x):
    return struct.unpack("f", struct.pack("f", float(x)))[0]


def metric(name, e, k):
    """The value of a metric after the first k examples."""
    if name == "example_number":
        return k - 1
    if name == "parsed_features":
        return sum(e["counts"][:k])
    s = 0.0
    for l, p in zip(e["labels"][:k], e["preds"][:k]):
        if name == "mse":
            s += (l["Simple"][0] - p["Scalar"][0]) ** 2
        else:
            a, c, pr = l["CB"]
            s += -c * dict(map(tuple, p["ActionProbs"]))[a] / pr
    return s / k


class Scratch:
    def __init__(self):
        self.d = None

    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else pyeng.WORK
        self.d = tempfile.mkdtemp(prefix="vcli-", dir=base)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def reml(args, cwd, env=None):
    try:
        r = subprocess.run([REML] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=pyeng.SLOW, env=env)
    except subprocess.TimeoutExpired:
        raise pyeng.Violation("reml %s does not end" % " ".join(args))
    return r


def read(p):
    with open(p, "rb") as f:
        return f.read()


def write(p, data):
    with open(p, "wb") as f:
        f.write(data.encode() if isinstance(data, str) else data)


def opt_args(o, d):
    a = []
    if o.get("pred"):
        a += ["--predictions", d + "/pred"]
    if o.get("metrics"):
        a += ["--metrics", ",".join(o["metrics"])]
    if o.get("progress"):
        a += ["--progress=" + o["progress"]]
    if o.get("threads") is not None:
        a += ["--num-parse-threads", str(o["threads"])]
    if o.get("queue") is not None:
        a += ["--queue-size", str(o["queue"])]
    return a


def train(stack, lines, o, d, model_in=None, end="\n"):
    """One run; returns the saved model, prediction lines and standard output."""
    config, fmt, _, _ = STACKS[stack]
    write(d + "/data", "\n".join(lines) + (end if lines else ""))
    for f in ("pred", "out"):
        if os.path.exists(d + "/" + f):
            os.unlink(d + "/" + f)
    a = ["--quiet"] if o.get("quiet") else []
    a += ["train", "--data", d + "/data", "--data-format", fmt, "--output-model", d + "/out"]
    if model_in is None:
        write(d + "/config", json.dumps(config))
        a += ["--config", d + "/config"]
    else:
        write(d + "/in", model_in)
        a += ["--input-model", d + "/in"]
    r = reml(a + opt_args(o, d), d)
    ensure(r.returncode == 0, lambda: "reml ended with %d: %s" % (r.returncode, r.stderr[-600:].decode("utf-8", "replace")))
    ensure(os.path.exists(d + "/out"), "no model was saved")
    preds = None
    if o.get("pred"):
        ensure(os.path.exists(d + "/pred"), "no predictions were written")
        preds = read(d + "/pred").decode()
        ensure(preds == "" or preds.endswith("\n"), "the predictions file does not end with a line end")
        preds = preds.split("\n")[:-1]
    return read(d + "/out"), preds, r.stdout.decode()


def check_preds(preds, e, lines):
    ensure(len(preds) == len(lines), lambda: "%d prediction lines for %d examples" % (len(preds), len(lines)))
    for i, (p, w) in enumerate(zip(preds, e["preds"])):
        got = [f32(x) for x in nums(json.loads(p))]
        want = [f32(x) for x in nums(w)]
        ensure(sorted(got) == sorted(want) and (len(want) == 2 or got == want),
               lambda: "prediction line %d is %s, the prediction just before learning was %s" % (i, p, w))


def tables(out):
    """The rows of every rendered table: lists of cells."""
    res = []
    for part in out.split("\x1b[J")[1:]:
        part = re.sub(r"\x1b\[[0-9;]*[A-Za-z]", "", part)
        rows = [re.split(r"\s{2,}|\s*\|\s*", l.strip("| \r")) for l in part.splitlines() if l.startswith("|")]
        res.append(rows)
    return res


def check_output(out, o, e, n, names):
    if o.get("quiet") and not o.get("pred"):
        ensure(out == "", lambda: "a quiet run printed %r" % out[:200])
        return
    if n == 0 or o.get("quiet"):
        return
    tb = tables(out)
    ensure(tb, "nothing was reported")
    ensure(all(len(r) == len(names) for r in tb[-1]), lambda: "table %s" % tb[-1])
    rows = tb[-1][1:]
    ks = [int(r[0]) + 1 for r in rows]
    ensure(ks == sorted(ks) and len(set(ks[:-1])) == len(ks) - 1 and ks[-1] == n, lambda: "reported after %s of %d examples" % (ks, n))
    for k, r in zip(ks, rows):
        for name, cell in zip(names, r):
            want = metric(name, e, k)
            ensure(abs(float(cell) - want) <= 1e-4 * (1 + abs(want)), lambda: "%s after %d examples reported as %s, is %s" % (name, k, cell, want))


def run_options(case, t):
    stack, lines, o = case["stack"], case["lines"], case["o"]
    e = expect(stack, tuple(lines))
    with Scratch() as d:
        m, preds, out = train(stack, lines, o, d, end=case.get("end", "\n"))
    t.eval(), t.step(len(lines))
    t.key((stack, lines, sorted(o.items(), key=str), case.get("end")))
    t.state(m)
    ensure(m == e["model"], lambda: "the saved model differs from the one learned example by example (%d and %d bytes)" % (len(m), len(e["model"])))
    if preds is not None:
        check_preds(preds, e, lines)
    check_output(out, o, e, len(lines), ["example_number"] + (o.get("metrics") or []))
    t.sample("%s %s: %d byte model" % (stack, o, len(m)))


def run_split(case, t):
    stack, lines = case["stack"], case["lines"]
    e = expect(stack, tuple(lines))
    model, preds, pos = None, [], 0
    with Scratch() as d:
        for i, k in enumerate(case["legs"]):
            o = dict(case["o"][i % len(case["o"])], pred=True)
            model, p, _ = train(stack, lines[pos:pos + k], o, d, model_in=model)
            preds += p
            pos += k
            t.eval(), t.step(k)
            t.state(model)
    t.key((stack, lines, case["legs"]))
    ensure(model == e["model"], "training in %d runs gave another model than training in one" % len(case["legs"]))
    check_preds(preds, e, lines)
    t.sample("%s in legs %s" % (stack, case["legs"]))


def _comp(n):
    if n == 0:
        return [[]]
    return [[k] + r for k in range(1, n + 1) for r in _comp(n - k)]


PROGRESS = ["*2", "+1", "+2", "3", "*1", "*1.5", "+0", "*0.5", "+1000"]


def metric_lists(ms, thorough):
    res = [None] + [[m] for m in ms] + [list(p) for p in itertools.permutations(ms, 2)]
    return res + ([list(p) for p in itertools.permutations(ms, 3)] if thorough else [])


def covering():
    """Option combinations in which every pair of values of two different options occurs."""
    return [dict(quiet=q, pred=p, progress=pr, threads=th, queue=qu, m=m)
            for (q, p, pr, th, qu, m) in [
                (True, False, None, 0, None, 0), (True, True, "+1", 2, 1, 1), (False, False, "*2", 1, 2, 1), (False, True, "3", 3, None, 0),
                (True, False, "*1", 3, 2, 1), (True, False, "3", 1, 1, 0), (False, True, "+1", 0, 2, 0), (False, False, "*1", 2, 1, 0),
                (True, True, "*2", 0, 1, 1), (False, True, "*1.5", 1, None, 1), (False, False, "+0", 3, 1, 1), (True, True, "*1.5", 2, 0, 0),
                (False, True, None, None, None, 1)]]


def c21(tier):
    th = tier == "thorough"
    bounds, spaces = [], []
    cases = []
    for s, (c, f, ls, ms) in STACKS.items():
        files = [ls, ls[::-1] + ls[:2]] if not th else [ls, ls[::-1] + ls, ls * 4, ls[:1]]
        for lines in files:
            for o in product(quiet=[False, True], pred=[False, True], metrics=metric_lists(ms, th), progress=PROGRESS if th else PROGRESS[:5],
                             threads=[0, 1, 4] if not th else [None, 0, 1, 2, 4, 8], queue=[1, None] if not th else [0, 1, 3, None]):
                if o["threads"] == 0 and o["queue"] is not None:
                    continue
                cases.append(dict(stack=s, lines=lines, o=o))
    spaces.append(("options", cases, run_options))
    bounds.append("options: %d stacks, %d files each, every combination of quiet, predictions, ordered lists of up to %d metrics, %d progress periods, thread counts and queue sizes"
                  % (len(STACKS), len(files), 3 if th else 2, 9 if th else 5))
    n = 4 if th else 3
    cases = []
    for s, (c, f, ls, ms) in STACKS.items():
        for lines in seqs(ls, 0, n if len(ls) < 5 or th else n):
            for i, o in enumerate(covering()):
                if not th and len(lines) == n and i % 4 != sum(map(len, lines)) % 4:
                    continue
                o = dict(o)
                o["metrics"] = ms if o.pop("m") else None
                cases.append(dict(stack=s, lines=lines, o=o, end="" if i % 3 == 2 else "\n"))
    spaces.append(("files", cases, run_options))
    bounds.append("files: every sequence of 0..%d examples of the alphabet of each stack, with %d option combinations%s, with and without a final line end"
                  % (n, len(covering()), "" if th else " (a quarter of them at full length)"))
    cases = []
    legs_o = [[dict(quiet=True)], [dict(threads=2, queue=1, progress="+1"), dict(quiet=True, threads=0)], [dict(quiet=True, threads=1), dict(metrics=["parsed_features"], threads=0)]]
    for s, (c, f, ls, ms) in STACKS.items():
        L = 7 if th else 5
        base = (ls * 3)[:L]
        rots = [base[i:] + base[:i] for i in range(len(ls) if th else 2)]
        for lines in rots:
            for legs in _comp(L):
                # a leg of no examples in front, behind or between must change nothing either
                for v in ([legs, [0] + legs, legs + [0]] if not th else [legs] + [legs[:i] + [0] + legs[i:] for i in range(len(legs) + 1)]):
                    for o in legs_o if th else legs_o[:2]:
                        cases.append(dict(stack=s, lines=lines, legs=v, o=o))
    spaces.append(("splits", cases, run_split))
    bounds.append("splits: files of %d examples cut in every way, with runs over no examples in between, options alternating between runs" % L)
    cases = []
    for s, (c, f, ls, ms) in STACKS.items():
        for n in (513, 1100) if not th else (511, 512, 513, 600, 1100, 3000):
            for o in product(quiet=[False, True], threads=[1, 3] if not th else [1, 2, 3, 8], queue=[1, None], pred=[True], progress=[None, "+100"]):
                cases.append(dict(stack=s, lines=(ls * n)[:n], o=o))
    for s, n in [("coin", 4097), ("coin-json", 4500), ("squarecb", 4097), ("coin-opts", 9000)] if not th else [(s, n) for s in STACKS for n in (4097, 9000, 20_000)]:
        for o in product(quiet=[True], threads=[1, 3], queue=[None], pred=[True], progress=[None]):
            cases.append(dict(stack=s, lines=(STACKS[s][2] * n)[:n], o=o))
    for n in (70_000,) if not th else (65_535, 65_536, 65_537, 140_000):
        cases.append(dict(stack="coin", lines=(VW * n)[:n], o=dict(quiet=True, threads=3, pred=True)))
    spaces.append(("long", cases, run_options))
    bounds.append("long: files of more examples than the default queue holds (up to %d)" % (140_000 if th else 70_000))
    return bounds, spaces


# ---- C26: the printed metrics -----------------------------------------------------------------------------------

def c26(tier):
    th = tier == "thorough"
    cases, n = [], 4 if th else 3
    for s in ("coin", "coin-json", "greedy", "softmax", "squarecb"):
        ls, ms = STACKS[s][2], STACKS[s][3]
        for i, lines in enumerate(seqs(ls, 1, n)):
            for m in metric_lists(ms, th)[1:] if len(lines) < n else [metric_lists(ms, th)[1 + i % (len(metric_lists(ms, th)) - 1)]]:
                cases.append(dict(stack=s, lines=lines, o=dict(quiet=False, pred=i % 2 == 0, metrics=m, progress="+1", threads=0)))
    return (["printed metrics: every file of up to %d examples of the alphabet with every list of metrics (one list at full length), reported after every example" % n],
            [("printed-metrics", cases, run_options)])


# ---- C25: export and import of model files ----------------------------------------------------------------------

def run_export(case, t):
    stack, lines, k = case["stack"], case["lines"], case["k"]
    e = expect(stack, tuple(lines))
    with Scratch() as d:
        model, _, _ = train(stack, lines[:k], dict(quiet=True, threads=0), d)
        for _ in range(case["trips"]):
            write(d + "/m", model)
            r = reml(["export-model", d + "/m"], d)
            ensure(r.returncode == 0, lambda: "export-model ended with %d: %s" % (r.returncode, r.stderr[-400:]))
            json.loads(r.stdout)
            write(d + "/j", r.stdout)
            r = reml(["import-model", d + "/j", "--output-model", d + "/m2"], d)
            ensure(r.returncode == 0, lambda: "import-model ended with %d: %s" % (r.returncode, r.stderr[-400:]))
            back = read(d + "/m2")
            ensure(back == model, "exporting and importing changed the model after %d examples" % k)
            model = back
        m, preds, _ = train(stack, lines[k:], dict(quiet=True, threads=0, pred=True), d, model_in=model)
    t.eval(), t.step(len(lines) + 2 * case["trips"])
    t.key((stack, lines, k)), t.state(model)
    ensure(m == e["model"], "training on after export and import gave another model")
    check_preds(preds, dict(preds=e["preds"][k:]), lines[k:])
    t.sample("%s exported after %d of %d examples" % (stack, k, len(lines)))


def c25(tier):
    n = 4 if tier == "thorough" else 3
    cases = []
    for s, (c, f, ls, ms) in STACKS.items():
        for i, lines in enumerate(seqs(ls, 0, n)):
            for k in range(len(lines) + 1):
                cases.append(dict(stack=s, lines=lines, k=k, trips=1 + (i % 7 == 0)))
    if tier != "thorough":
        cases = [c for i, c in enumerate(cases) if len(c["lines"]) < n or i % 3 == 0]
    return (["command line: every file of up to %d examples per stack, exported and imported after every example" % n + ("" if tier == "thorough" else " (a third of them at full length)")],
            [("export-import-files", cases, run_export)])


# ---- C19: damaged model files -----------------------------------------------------------------------------------

SMALL = ("coin", "squarecb", "elementwise")


@functools.lru_cache(maxsize=64)
def trained(stack, n):
    ops_lines = tuple(STACKS[stack][2][:n])
    return expect(stack, ops_lines)["model"]


@functools.lru_cache(maxsize=64)
def exported(stack, n):
    with Scratch() as d:
        write(d + "/m", trained(stack, n))
        r = reml(["export-model", d + "/m"], d)
        assert r.returncode == 0
        return json.dumps(json.loads(r.stdout)).encode()


def run_damaged(case, t):
    stack, cmd = case["stack"], case["cmd"]
    data = (exported if cmd == "import" else trained)(stack, case["n"])
    size = len(data)
    cut = case["cut"] * size // case["of"] if "of" in case else case["cut"]
    if cut >= size:
        return
    data = data[:cut] if case.get("how") != "junk" else (case["junk"].encode() if cut == 0 else case["junk"].encode() + data[cut:])
    OLD = b"what was there before"
    with Scratch() as d:
        write(d + "/bad", data), write(d + "/out", OLD), write(d + "/pred", OLD), write(d + "/data", "\n".join(STACKS[stack][2]) + "\n")
        if cmd == "train":
            a = ["train", "--data", d + "/data", "--data-format", STACKS[stack][1], "--input-model", d + "/bad", "--output-model", d + "/out",
                 "--predictions", d + "/pred", "--num-parse-threads", "0"]
        elif cmd == "export":
            a = ["export-model", d + "/bad"]
        else:
            a = ["import-model", d + "/bad", "--output-model", d + "/out"]
        r = reml(a, d)
        t.eval(), t.step(), t.key((stack, cmd, data))
        what = "%s with the first %d of %d bytes of a model" % (cmd, cut, size)
        ensure(r.returncode == 1, lambda: "%s ended with %d: %s" % (what, r.returncode, r.stderr[-400:].decode("utf-8", "replace")))
        ensure(read(d + "/out") == OLD and read(d + "/pred") == OLD, "%s touched the output files" % what)
        ensure(cmd != "export" or r.stdout == b"", "%s printed a model" % what)
    t.sample(what)


def c19(tier):
    th = tier == "thorough"
    cases = []
    for s in SMALL if not th else STACKS:
        for n in (0, 2):
            size = {"coin": 1700, "squarecb": 3000}.get(s, 3000)
            for cmd in ("train", "export"):
                cases += [dict(stack=s, n=n, cmd=cmd, cut=k) for k in range(0, size, 1 if th else 3)]
            cases += [dict(stack=s, n=n, cmd="import", cut=k, of=400 if not th else 2000) for k in range(400 if not th else 2000)]
        for j in ("", "x", "{}", "[]", "null", "\u0000" * 9, "reductionml"):
            cases += [dict(stack=s, n=2, cmd=c, cut=0, how="junk", junk=j) for c in ("train", "export", "import")]
    return (["command line: models of %d stacks cut after %s byte, exported text cut at %d places, and files that are not models, given to train, export-model and import-model"
             % (len(SMALL) if not th else len(STACKS), "every" if th else "every third", 2000 if th else 400)], [("damaged-files", cases, run_damaged)])


# ---- C20: config check and config new ---------------------------------------------------------------------------

REDS = ["Coin", "Binary", "CbAdf", "CbExploreAdfGreedy", "CbExploreAdfSoftmax", "CbExploreAdfSquareCb", "ElementwiseInteraction"]


def config_texts(th):
    """Configurations to hand to `config check`: chains of layers, with option values and damage."""
    opts = {
        "Coin": [{}, {"alpha": 0.5}, {"lossFunction": {"Logistic": {}}}, {"alpha": "x"}, {"lossFunction": "Nope"}],
        "Binary": [{}, {"regressor": 3}], "CbAdf": [{}, {"cbType": "ips"}, {"cbType": "nope"}],
        "CbExploreAdfGreedy": [{}, {"epsilon": 0.0}, {"epsilon": 1.0}, {"epsilon": 1.5}, {"epsilon": -0.1}],
        "CbExploreAdfSoftmax": [{}, {"lambda": 2}, {"uniformEpsilon": 2}],
        "CbExploreAdfSquareCb": [{}, {"gammaScale": 1}, {"uniformEpsilon": -1}],
        "ElementwiseInteraction": [{"one": "Default", "two": {"Name": "a"}}, {"one": {"Name": "a"}, "two": "nope"}],
        "Nope": [{}],
    }
    child = {"Binary": "regressor", "CbAdf": "regressor", "CbExploreAdfGreedy": "cbAdf", "CbExploreAdfSoftmax": "cbAdf",
             "CbExploreAdfSquareCb": "cbAdf", "ElementwiseInteraction": "regressor"}

    def trees(depth):
        for t, os_ in opts.items():
            for o in os_:
                yield {"typename": t, "config": o}
                if depth > 1 and t in child and child[t] not in o:
                    for c in trees(depth - 1):
                        yield {"typename": t, "config": {**o, child[t]: c}}
    globs = [{}, {"numBits": 1}, {"numBits": 31}, {"numBits": 32}, {"numBits": -1}, {"hashSeed": 4294967295}, {"hashSeed": 4294967296},
             {"interactions": [["Default", "Default"]]}, {"interactions": [["Default"]]}, {"interactions": [[{"Name": "a"}] * 3]}, {"interactions": [[{"Name": "a"}] * 4]},
             {"constantFeatureEnabled": 1}, {"constantFeatureEnabled": False}]
    res = []
    for e in trees(3 if th else 2):
        res.append({"globalConfig": {"numBits": 4}, "entryReduction": e})
    for g in globs:
        for e in ({"typename": "Coin", "config": {}}, {"typename": "CbAdf", "config": {}}):
            g2 = dict(g) if "numBits" in g else {**g, "numBits": 4}
            if g2.get("numBits") == 31:
                continue
            res.append({"globalConfig": g2, "entryReduction": e})
    texts = [json.dumps(x) for x in res]
    base = '{"globalConfig":{"numBits":4},"entryReduction":{"typename":"Coin","config":{}}}'
    texts += [base[:k] for k in range(len(base))] + ["[]", "{}", "null", '{"entryReduction":{"typename":"Coin"}}', base + "x"]
    return texts


def run_check(case, t):
    text = case["text"]
    r = ORACLE.run([{"op": "reset"}, {"op": "new", "w": 0, "config": text}])[1]
    with Scratch() as d:
        write(d + "/c", text), write(d + "/data", "1 | a\n")
        p = reml(["config", "check", d + "/c"], d)
        ok = p.returncode == 0
        t.eval(), t.key(text), t.state((text, ok))
        ensure(p.returncode in (0, 1), lambda: "config check ended with %d: %s" % (p.returncode, p.stderr[-300:]))
        ensure(ok == ("ok" in r), lambda: "config check %s what the library %s" % ("accepts" if ok else "refuses", "accepts" if "ok" in r else "refuses: " + r["err"]))
        t.notes["accepted" if ok else "refused"] += 1
        if not ok:
            q = reml(["train", "--config", d + "/c", "--data", d + "/data", "--output-model", d + "/m"], d)
            ensure(q.returncode == 1 and not os.path.exists(d + "/m"), "train with a refused configuration ended with %d" % q.returncode)


def run_new(case, t):
    red = case["red"]
    with Scratch() as d:
        for extra in ([], ["--latest"]):
            p = reml(["config", "new", red] + extra, d)
            ensure(p.returncode == 0, "config new %s ended with %d" % (red, p.returncode))
            c = json.loads(p.stdout)
            write(d + "/c", p.stdout)
            q = reml(["config", "check", d + "/c"], d)
            ensure(q.returncode == 0, "config check refuses what config new %s printed: %s" % (red, q.stderr[-300:]))
            # the defaults written out and the defaults left out are the same workspace
            short = {"globalConfig": {}, "entryReduction": {"typename": red, "config": {} if red != "ElementwiseInteraction" else
                     {k: c["entryReduction"]["config"][k] for k in ("one", "two")}}}
            rs = ORACLE.run([{"op": "reset"}, {"op": "new", "w": 0, "config": json.dumps(c)}, {"op": "new", "w": 1, "config": json.dumps(short)},
                             {"op": "types", "w": 0}, {"op": "types", "w": 1}, {"op": "save", "w": 0, "s": 0}, {"op": "save", "w": 1, "s": 1}])
            ensure(all("ok" in x for x in rs), lambda: "defaults of %s: %s" % (red, rs))
            ensure(rs[3] == rs[4] and rs[5] == rs[6], "config new %s prints other values than the defaults" % red)
            t.eval(), t.key((red, tuple(extra)))
    t.sample("config new " + red)


def c20(tier):
    th = tier == "thorough"
    texts = config_texts(th)
    return (["command line: config check on %d configuration texts (chains of layers up to %d, option values, prefixes); config new for every reduction" % (len(texts), 3 if th else 2)],
            [("config-check", [dict(text=x) for x in texts], run_check), ("config-new", [dict(red=r) for r in REDS], run_new)])


# ---- C02: failures of the real program --------------------------------------------------------------------------

BADVW = ["x | a", "1 |n a:b:c:d |", "1 2 3 4 | a", "| a b", "1 | a \udcff", ""]
BADDS = ["{", "{}", "[]", '{"_label_cost":-1}', ""]


def run_bad(case, t):
    stack, lines = case["stack"], list(case["lines"])
    lines.insert(case["pos"], case["bad"])
    config, fmt = STACKS[stack][0], STACKS[stack][1]
    data = ("\n".join(lines) + "\n").encode("utf-8", "surrogateescape")
    OLD = b"what was there before"
    outs = []
    with Scratch() as d:
        for th in case["threads"]:
            write(d + "/data", data), write(d + "/out", OLD), write(d + "/config", json.dumps(config))
            a = (["--quiet"] if case["quiet"] else []) + ["train", "--config", d + "/config", "--data", d + "/data", "--data-format", fmt, "--output-model", d + "/out",
                                                         "--num-parse-threads", str(th), "--queue-size", str(case["queue"])]
            r = reml(a, d)
            t.eval(), t.step(len(lines))
            failed, same = r.returncode != 0, read(d + "/out") == OLD
            ensure(failed == same, lambda: "with %d parse threads the run ended with %d and the output model was %s" % (th, r.returncode, "left" if same else "written"))
            outs.append(failed)
            ensure(failed or not case["must"], "with %d parse threads the run succeeded on a file with a bad example" % th)
        ensure(len(set(outs)) == 1, lambda: "thread counts %s: failed %s" % (case["threads"], outs))
        t.key((stack, tuple(lines), case["queue"]))


def c02(tier):
    th = tier == "thorough"
    cases = []
    for s, bads in (("coin", BADVW), ("greedy", BADDS)):
        ls = STACKS[s][2]
        for n in (range(0, 5) if th else (0, 1, 3)):
            for bad in bads:
                for pos in range(n + 1):
                    for q in (0, 1, 2, 512) if th else (0, 1, 512):
                        for quiet in (True, False):
                            must = bad in ("x | a", "| a b", "1 | a \udcff", "{", "[]", '{"_label_cost":-1}')
                            cases.append(dict(stack=s, lines=ls[:n], pos=pos, bad=bad, queue=q, quiet=quiet, must=must, threads=[0, 1, 2, 5] if th else [0, 1, 3]))
    return (["real program: %d bad or odd lines at every position of files of up to %d examples, several thread counts and queue sizes, operating system scheduling" % (len(BADVW) + len(BADDS), 4 if th else 3)],
            [("bad-example-processes", cases, run_bad)])


def build(prop, tier):
    return {"C02": c02, "C19": c19, "C20": c20, "C21": c21, "C25": c25, "C26": c26}[prop](tier)


if __name__ == "__main__":
    os.environ["RUST_BACKTRACE"] = "0"
    pyeng.main(build)
