"""C30, one thread: two workspaces (with parsers and perhaps a common pool) driven in every order of their operations, each
order in a process of its own, compared with each workspace alone in a process of its own."""
import functools, itertools, json, subprocess, sys
import cli
import pyeng
from pyeng import ensure, seqs

NS = lambda a: {"Name": a}
VW = ["1 | a:1 b |n c", "-0.5 |n :1 :2 c | a"]
JS = ['{"label":1,"features":{"n":{"a":1,"c":"v"},":default":[1,2]}}', '{"label":-0.5,"features":{"n":{"c":2,"v":1},":default":{"a":1}}}']
ELEM = {"typename": "ElementwiseInteraction", "config": {"one": "Default", "two": NS("n"), "keepOriginalFeatures": True, "regressor": cli.COIN}}
# name -> (configuration, format, lines); what two of them have in common is where one could reach into the other
AGENTS = {
    "coin": (cli.cfg(cli.COIN, interactions=[["Default", NS("n")]]), "vw", VW),
    "coin-7": (cli.cfg(cli.COIN, interactions=[["Default", NS("n")]], hashSeed=7), "vw", VW),
    "coin-6": (cli.cfg(cli.COIN, interactions=[["Default", NS("n")]], numBits=6), "vw", VW),
    "coin-const": (cli.cfg({"typename": "Coin", "config": {"alpha": 1.0, "linkFunction": "Logistic"}}, constantFeatureEnabled=False), "vw", VW),
    "coin-json": (cli.cfg(cli.COIN, interactions=[[NS("n"), NS("n")]]), "json", JS),
    "coin-json-7": (cli.cfg(cli.COIN, hashSeed=7, numBits=5), "json", JS),
    "elementwise": (cli.cfg(ELEM), "vw", VW),
    "debug": (cli.cfg({"typename": "Debug", "config": {"next": {"typename": "Debug", "config": {"next": cli.COIN}}}}), "vw", VW),
    "greedy": (cli.cfg({"typename": "CbExploreAdfGreedy", "config": {"epsilon": 0.2, "cbAdf": cli.cbadf("mtr")}}), "ds", cli.DS),
    "softmax-7": (cli.cfg({"typename": "CbExploreAdfSoftmax", "config": {"lambda": 1.5, "cbAdf": cli.cbadf("ips")}}, hashSeed=7), "ds", cli.DS),
    "squarecb": (cli.cfg({"typename": "CbExploreAdfSquareCb", "config": {"cbAdf": cli.cbadf("mtr")}}), "ds", cli.DS),
    "greedy-json": (cli.cfg({"typename": "CbExploreAdfGreedy", "config": {"epsilon": 0.1, "cbAdf": cli.cbadf("ips")}}, numBits=6), "json", cli.JCB),
}


def fresh(ops):
    try:
        r = _fresh(ops)
    except subprocess.TimeoutExpired:
        return "the process does not end"
    if r.returncode != 0 or not r.stdout:
        return "the process ends with %d" % r.returncode
    return json.loads(r.stdout)


def _fresh(ops):
    return subprocess.run([pyeng.TARGET + "/mc/debug/mc", "ORACLE"], input=json.dumps(ops) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       encoding="utf-8", timeout=pyeng.SLOW)


def start(who, agent):
    c, f, _ = AGENTS[agent]
    return [{"op": "new", "w": who, "config": json.dumps(c)}, {"op": "parser", "w": who, "p": who, "format": f}]


def op(who, agent, o, pool):
    """One operation of an agent's program; containers of agent k are 10k and up."""
    _, f, lines = AGENTS[agent]
    x = 10 * who
    line = lambda i: lines[i] + ("\n" if f == "ds" else "")
    get = lambda i, at: {"op": "parse", "p": who, "f": at, "text": line(i), **({} if pool is None else {"pool": pool})}
    back = [] if pool is None else [{"op": "recycle", "f": x, "pool": pool}]
    if o == "L" or o == "M":
        return [get("LM".index(o), x), {"op": "learn", "w": who, "f": x, "l": x}] + back
    if o == "P" or o == "Q":
        return [get("PQ".index(o), x), {"op": "predict", "w": who, "f": x}, {"op": "count", "f": x}] + back
    if o == "H":  # holds an example across whatever the other one does next
        return [get(1, x + 1)]
    if o == "U":
        return [{"op": "learn", "w": who, "f": x + 1, "l": x + 1}, {"op": "predict", "w": who, "f": x + 1}]
    if o == "R":
        return [{"op": "save", "w": who, "s": who}, {"op": "load", "w": who, "s": who}]
    if o == "J":
        return [{"op": "save_json", "w": who, "s": who}, {"op": "load_json", "w": who, "s": who}]
    if o == "N":  # a new parser, and a new workspace that takes the place of the old one
        return start(who, agent)


def end(who):
    return [{"op": "save", "w": who, "s": who}]


@functools.lru_cache(maxsize=None)
def alone(agent, prog, pooled):
    ops = start(0, agent)
    for o in prog:
        ops += op(0, agent, o, 0 if pooled else None)
    return fresh(ops + end(0))


def merges(a, b):
    """Every order of the operations 0 (a of them) and 1 (b of them)."""
    for at in itertools.combinations(range(a + b), a):
        yield [0 if i in at else 1 for i in range(a + b)]


def case(c, t):
    names, progs, order, pooling, late = c["agents"], c["progs"], c["order"], c["pool"], c["late"]
    # late: the second workspace is only created when its first operation comes
    ops, at = [], []
    def add(w, l):
        ops.extend(l)
        at.extend([w] * len(l))
    pool = {"none": [None, None], "own": [0, 1], "common": [0, 0]}[pooling]
    add(0, start(0, names[0]))
    if not late:
        add(1, start(1, names[1]))
    n = [0, 0]
    for w in order:
        if late and w == 1 and n[1] == 0:
            add(1, start(1, names[1]))
        add(w, op(w, names[w], progs[w][n[w]], pool[w]))
        n[w] += 1
    add(0, end(0)), add(1, end(1))
    res = fresh(ops)
    ensure(isinstance(res, list), lambda: "%s" % res)
    for w in (0, 1):
        want = alone(names[w], tuple(progs[w]), pool[w] is not None)
        ensure(isinstance(want, list), lambda: "workspace %d alone: %s" % (w, want))
        got = [r for r, x in zip(res, at) if x == w]
        mine = [o for o, x in zip(ops, at) if x == w]
        for g, x, o in zip(got, want, mine):
            ensure(g == x, lambda: "%s of workspace %d gives %s, alone %s" % (o["op"], w, str(g)[:200], str(x)[:200]))
        ensure(len(got) == len(want), "number of results")
        t.step(len(got))
        t.state(want[-1])
    t.eval()
    t.key((names, progs, order, pooling, late))
    t.sample("%s %s %s %s" % (names, progs, order, pooling))


def spaces(prop, tier):
    deep = tier == "thorough"
    pairs = [(a, b) for a in AGENTS for b in AGENTS]
    progs = [["L", "P"], ["P", "L"], ["L", "R"], ["H", "U"], ["L", "J"]]
    A = [dict(agents=p, progs=[x, y], order=o, pool="common", late=False)
         for p in pairs for x in progs for y in (progs[:1] + progs[3:4] if not deep else progs) for o in merges(2, 2)]
    few = [("coin", "coin-7"), ("coin", "coin-6"), ("coin-json", "coin-json-7"), ("coin", "elementwise"), ("greedy", "softmax-7"), ("greedy", "coin"),
           ("greedy-json", "coin-json-7"), ("squarecb", "greedy"), ("debug", "debug"), ("coin-const", "coin"), ("squarecb", "squarecb")]
    alpha = "LMPR" if not deep else "LMPQRHN"
    ok = lambda s: all(o != "U" or "H" in s[:i] for i, o in enumerate(s))
    P2 = [s for s in seqs(list(alpha + ("U" if deep else "")), 2, 2) if ok(s)]
    B = [dict(agents=p, progs=[x, y], order=o, pool=pool, late=late)
         for p in few for x in P2 for y in P2 for o in merges(2, 2) for pool, late in (("common", True), ("none", False))]
    long = [["L", "M", "P"], ["H", "L", "U"], ["L", "N", "P"], ["M", "R", "Q"]]
    C = [dict(agents=p, progs=[x, y], order=o, pool=pool, late=True) for p in few for x in long for y in long for o in merges(3, 3) for pool in ("own", "common")]
    if not deep:
        C = [c for c in C if c["progs"][0] == long[0] or c["progs"][1] == long[1]]
    bounds = ["two workspaces of every ordered pair of %d configurations (other seed, width, reduction, format), every merge of two operations each from %s"
              % (len(AGENTS), progs), "%d pairs: every program of two operations each from %s (learn, predict, save and load), every merge, with and without a common pool" % (len(few), alpha),
              "%d pairs: programs of three operations from %s, every merge" % (len(few), long),
              "every merged order and every workspace alone in a process of its own"]
    return bounds, [("isolation pairs", A, case), ("isolation programs", B, case), ("isolation longer programs", C, case)]


if __name__ == "__main__":
    pyeng.main(spaces)
