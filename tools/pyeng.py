"""Exhaustive enumeration for the engines written in Python: every case of every space is run, split over processes.

A space is a name, a list of cases and a function case -> Out. A case is replayed by its index. The engines write
the same result file as the Rust ones (see check.py)."""
import argparse, collections, ctypes, hashlib, itertools, json, mmap, os, pickle, select, signal, subprocess, sys, time

TARGET = os.environ.get("VERIF_TARGET", "/verif/target")
WORK = os.environ.get("VERIF_OUT", "/verif/out")


class Violation(Exception):
    pass


def ensure(c, msg):
    if not c:
        raise Violation(msg() if callable(msg) else msg)


class Tally:
    def __init__(self):
        self.evaluations = self.transitions = self.traces = 0
        self.distinct, self.states, self.samples = set(), set(), []
        self.notes = collections.Counter()

    @staticmethod
    def h(x):
        return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()

    def eval(self, n=1):
        self.evaluations += n

    def step(self, n=1):
        self.transitions += n

    def key(self, x):
        self.distinct.add(self.h(x))

    def state(self, x):
        self.states.add(self.h(x))

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(str(s)[:300])

    def add(self, o):
        self.evaluations += o.evaluations
        self.transitions += o.transitions
        self.traces += o.traces
        self.distinct |= o.distinct
        self.states |= o.states
        self.notes.update(o.notes)
        self.samples += o.samples[:8 - len(self.samples)]


class Oracle:
    """The core library behind `mc ORACLE`."""

    def __init__(self):
        self.p = None
        self.pid = 0

    def run(self, ops):
        if self.p is None or self.pid != os.getpid():
            self.pid = os.getpid()
            self.p = subprocess.Popen([TARGET + "/mc/debug/mc", "ORACLE"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      text=True, encoding="utf-8", preexec_fn=die_with_parent)
        try:
            self.p.stdin.write(json.dumps(ops) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        # an answer is one line, and nothing follows it
        if not select.select([self.p.stdout], [], [], SLOW)[0]:
            self.p.kill()
        line = self.p.stdout.readline()
        if not line.endswith("\n"):
            rc = self.p.wait()
            self.p = None
            raise Violation("the core library %s on %s" % ("does not end" if rc == -9 else "ends the process (%d)" % rc, json.dumps(ops)[:700]))
        return json.loads(line)


SLOW = 30  # seconds a call may take
ORACLE = Oracle()
_spaces, _deadline = {}, 0.0


def _work(job, tell):
    name, lo, hi = job
    cases, fn = _spaces[name]
    t, vio, err, done = Tally(), [], [], 0
    for i in range(lo, hi):
        if time.time() > _deadline:
            break
        tell(i)
        try:
            t.traces += 1
            fn(cases[i], t)
        except Violation as v:
            vio.append(dict(space=name, choices=[i], detail="%s\n%s" % (v, _show(cases[i]))))
        except (LookupError, ValueError, TypeError, AttributeError) as e:
            # nothing of the kind happens on what the unchanged program answers
            import traceback
            vio.append(dict(space=name, choices=[i], detail="what the program answered makes no sense: %r\n%s\n%s" % (e, traceback.format_exc()[-600:], _show(cases[i]))))
        except Exception as e:
            import traceback
            err.append("%s[%d]: %s\n%s" % (name, i, e, traceback.format_exc()[-1500:]))
        done += 1
        if len(vio) >= 5 or len(err) >= 2:
            done = hi - lo if done == hi - lo else done
            break
    return name, done, hi - lo, t, vio, err


HANG = 70  # seconds one case may take


def die_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG


def run_jobs(jobs):
    """Every job in a process of its own, eight at a time. A process that dies or hangs is a violation by the case it was at."""
    at = mmap.mmap(-1, 8 * len(jobs) + 8)
    todo, live, bad = list(enumerate(jobs))[::-1], {}, 0
    while todo or live:
        if bad >= 20 or time.time() > _deadline:
            todo = []
        while todo and len(live) < 8:
            n, job = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush(), sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    die_with_parent()
                    os.close(r)
                    res = _work(job, lambda i: at.__setitem__(slice(8 * n, 8 * n + 8), i.to_bytes(8, "little")))
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(res, f)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            os.set_blocking(r, False)
            live[pid] = [n, job, r, b"", None, time.time()]
        got = select.select([x[2] for x in live.values()], [], [], 0.2)[0]
        for pid, x in list(live.items()):
            n, (name, lo, hi), r, buf, last, since = x
            end = False
            if r in got:
                d = os.read(r, 1 << 20)
                x[3] += d
                end = not d
            case = int.from_bytes(at[8 * n:8 * n + 8], "little")
            if case != last:
                x[4], x[5] = case, time.time()
            over = bad >= 20 or time.time() > _deadline + 20
            hang = not end and time.time() - x[5] > (SLOW + 5 if over else HANG)
            if not end and not hang:
                continue
            if hang:
                os.killpg(pid, signal.SIGKILL)
            st = os.waitpid(pid, 0)[1]
            os.close(r)
            del live[pid]
            if hang or os.WIFSIGNALED(st):
                i = max(lo, case)
                bad += 1
                what = "the process does not end" if hang else "signal %d ends the process" % os.WTERMSIG(st)
                yield name, i - lo, hi - lo, Tally(), [dict(space=name, choices=[i], detail="%s\n%s" % (what, _show(_spaces[name][0][i])))], []
            elif st != 0:
                yield name, 0, hi - lo, Tally(), [], ["%s: the process of cases %d to %d failed" % (name, lo, hi)]
            else:
                res = pickle.loads(x[3])
                bad += len(res[4])
                yield res


def _show(case):
    try:
        return json.dumps(case, default=repr)[:1500]
    except Exception:
        return repr(case)[:1500]


def chunk(n):
    return max(1, min(2000, (n + 63) // 64))


def main(build_spaces, fresh=False):
    """build_spaces(prop, tier) -> (bounds, [(name, cases, fn)]). Every chunk of cases runs in a new process. With `fresh`,
    replaying a case also runs those before it in its chunk, whose leftovers in the process it may depend on."""
    global _deadline
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"), ap.add_argument("tier"), ap.add_argument("--secs", type=int, default=200)
    ap.add_argument("--out"), ap.add_argument("--only", nargs=2)
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    try:
        bounds, spaces = build_spaces(a.prop, a.tier)
    except Violation as v:
        why = str(v)  # even what every case is compared with cannot be computed

        def fail(case, t):
            raise Violation(why)
        bounds, spaces = [], [(a.only[0] if a.only else "setup", [0], fail)]
    if a.only:
        spaces = [s for s in spaces if s[0] == a.only[0]]
    for n, c, f in spaces:
        assert n not in _spaces, n
        _spaces[n] = (c, f)
    _deadline = t0 + a.secs
    if a.only:
        i = int(a.only[1].split(",")[0])
        k = chunk(len(spaces[0][1]))
        jobs = [(a.only[0], i // k * k if fresh else i, i + 1)]
    else:
        jobs = []
        for n, c, f in spaces:
            k = chunk(len(c))
            jobs += [(n, lo, min(lo + k, len(c))) for lo in range(0, len(c), k)]
    tot, vio, err = Tally(), [], []
    per = {n: dict(name=n, paths=0, total=len(c)) for n, c, f in spaces}
    for name, done, want, t, v, e in run_jobs(jobs):
        if a.only:
            v = [x for x in v if x["choices"] == [i]]
        per[name]["paths"] += done
        tot.add(t)
        vio += v
        err += e
    vio.sort(key=lambda v: (v["space"], v["choices"]))
    res = dict(property=a.prop, evaluations=tot.evaluations, distinct_nontrivial=len(tot.distinct), states=len(tot.states),
               transitions=tot.transitions, traces_validated_against_impl=tot.traces, samples=tot.samples,
               notes=dict(tot.notes), bounds=bounds,
               spaces=[dict(name=p["name"], paths=p["paths"], complete=p["paths"] == p["total"]) for p in per.values()],
               violations=vio[:40], engine_errors=err[:10], wall_s=round(time.time() - t0, 2))
    if a.out:
        json.dump(res, open(a.out, "w"))
    else:
        json.dump(res, sys.stdout, indent=1)
    sys.exit(2 if err else 1 if vio else 0)


def product(**axes):
    names = list(axes)
    return [dict(zip(names, v)) for v in itertools.product(*axes.values())]


def seqs(alphabet, lo, hi):
    return [list(s) for n in range(lo, hi + 1) for s in itertools.product(alphabet, repeat=n)]
