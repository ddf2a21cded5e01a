"""Explorer core: enumeration drivers, counters, violations, known findings, evidence.

A check is a function run(ctx) that enumerates its bounded space with the drivers below.  Everything is
deterministic: cases are visited simplest first, every case has a stable string key, and a violation is written to
a replay file that re-runs just that case (check.py ID --replay FILE).
"""
import collections
import contextlib
import hashlib
import itertools
import json
import os
import time
import traceback

REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo")) + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, "known_findings.json")


class Stop(Exception):
    """Raised to end a run early once enough violations were recorded."""


def key_of(data):
    text = json.dumps(data, sort_keys=True, default=_jsonable)
    return text if len(text) < 200 else text[:120] + "#" + hashlib.sha1(text.encode()).hexdigest()[:16]


def _jsonable(x):
    if hasattr(x, "tolist"):
        return x.tolist()
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    return repr(x)


class Ctx:
    def __init__(self, pid, tier, seed, level, rule, replay=None, max_violations=2, shard=(0, 1)):
        self.shard = shard
        self.position = 0        # running number of the case in the enumeration, the same in every shard
        self.pid, self.tier, self.seed, self.level, self.rule = pid, tier, seed, level, rule
        self.thorough = tier == "thorough"
        self.replay = replay
        self.max_violations = max_violations
        self.t0 = time.time()
        self.states = 0          # distinct states / configurations reached
        self.transitions = 0     # operations of the real code executed
        self.validated = 0       # executions of the real code compared with the model
        self.evaluations = 0     # individual comparisons (rays, points, rows, ...)
        self.nontrivial = 0      # those whose expected outcome is not the empty / default one
        self.ambiguous = 0       # skipped: measure-zero input where the property does not fix the answer
        self.samples = []
        self.outcomes = collections.Counter()
        self.violations = []
        self.known_hits = {}
        self.exhaustive = True
        self.assumptions = []
        self.extra = {}
        self.cur = None
        self.n_cases = 0
        self.known = []
        if os.path.exists(KNOWN_FILE):
            self.known = [k for k in json.load(open(KNOWN_FILE))["findings"] if k["property"] == pid]

    # -- enumeration -----------------------------------------------------------------------------------------
    @contextlib.contextmanager
    def case(self, data, steps=1, sample_every=997):
        """One case: counts it, and turns any exception of the code under test into a violation."""
        self.cur = data
        self.states += 1
        self.transitions += steps
        self.validated += 1
        self.n_cases += 1
        if len(self.samples) < 2 or (len(self.samples) < 8 and self.n_cases % sample_every == 0):
            self.samples.append(json.loads(json.dumps(data, default=_jsonable)))
        try:
            yield
        except Stop:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb)
                          if f.filename.startswith(REPO)), "harness, on what the code returned")
            self.fail(f"unexpected {type(e).__name__}: {e} (in {where})",
                      trace=traceback.format_exc().splitlines()[-12:])
        finally:
            self.cur = None

    def selected(self, data):
        """Is this case for this process: all of them are dealt out to the shards in turn; a replay has just one."""
        self.position += 1
        if self.replay is not None:
            return key_of(data) == self.replay
        return self.position % self.shard[1] == self.shard[0]

    def cases(self, iterable, steps=1):
        for data in iterable:
            if self.selected(data):
                yield data

    # -- verdicts --------------------------------------------------------------------------------------------
    def fail(self, what, **detail):
        case = self.cur
        k = key_of(case)
        for f in self.known:
            if f["case"] == k and f.get("what", "") in what:
                self.known_hits[f["case"]] = f
                return
        self.violations.append({"position": self.position, "key": k, "case": json.loads(
            json.dumps(case, default=_jsonable)), "what": what, "detail": json.loads(
            json.dumps(detail, default=_jsonable))})
        if len(self.violations) >= self.max_violations:
            raise Stop()

    def report(self):
        """print and store the violations, earliest (simplest) first"""
        for f in self.known_hits.values():
            print(f"KNOWN-FINDING: property={self.pid} {f['text']}", flush=True)
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for v in sorted(self.violations, key=lambda v: v["position"])[:self.max_violations]:
            path = os.path.join(d, f"{self.pid}-{hashlib.sha1((v['key'] + v['what']).encode()).hexdigest()[:10]}.json")
            with open(path, "w") as fh:
                json.dump(dict(v, property=self.pid, tier=self.tier, replay=(
                    f"/opt/venv/bin/python check.py {self.pid} --replay {path}")), fh, indent=1)
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            print(f"  {v['what']}\n  case: {v['key']}", flush=True)
            for name, x in v["detail"].items():
                print(f"  {name}: {json.dumps(x)[:600]}", flush=True)

    COUNTERS = ("states", "transitions", "validated", "evaluations", "nontrivial", "ambiguous", "n_cases")

    def result(self):
        return {"counters": {c: getattr(self, c) for c in self.COUNTERS}, "outcomes": dict(self.outcomes),
                "samples": self.samples, "violations": self.violations, "known_hits": self.known_hits,
                "exhaustive": self.exhaustive, "extra": self.extra}

    def merge(self, r):
        for c, v in r["counters"].items():
            setattr(self, c, getattr(self, c) + v)
        self.outcomes.update(r["outcomes"])
        self.samples = (self.samples + r["samples"][:2])[:8]
        self.violations += r["violations"]
        self.known_hits.update(r["known_hits"])
        self.exhaustive = self.exhaustive and r["exhaustive"]
        for k, v in r["extra"].items():
            self.extra[k] = v

    def expect(self, ok, what, n=1, **detail):
        self.evaluations += n
        if not ok:
            self.fail(what, **detail)
        return ok

    def count(self, outcome, n=1):
        if n:
            self.outcomes[outcome] += int(n)

    # -- evidence --------------------------------------------------------------------------------------------
    def write_evidence(self):
        cov = {
            "states": int(self.states), "transitions": int(self.transitions),
            "traces_validated_against_impl": int(self.validated),
            "evaluations": int(self.evaluations), "distinct_nontrivial": int(self.nontrivial),
            "rule": self.rule, "samples": self.samples[:8] or ["none"],
            "exhaustive": bool(self.exhaustive and self.replay is None and not self.violations),
            "ambiguous_skipped": int(self.ambiguous),
            "outcomes": {k: int(v) for k, v in self.outcomes.most_common(40)},
        }
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=_jsonable)


# -- drivers -------------------------------------------------------------------------------------------------
def sequences(alphabet, depth, min_depth=0):
    """Every sequence over the alphabet, shortest first."""
    for n in range(min_depth, depth + 1):
        yield from itertools.product(alphabet, repeat=n)


def product(*axes):
    return itertools.product(*axes)


def sub_grid(items, n):
    """n items spread evenly over a list (deterministic thinning of an axis, never of a product)."""
    items = list(items)
    if len(items) <= n:
        return items
    return [items[round(i * (len(items) - 1) / (n - 1))] for i in range(n)]


def in_processes(fn, n):
    """fn(0..n-1), each in a process of its own; an error in any of them is an error of the whole"""
    import pickle
    import sys
    sys.stdout.flush()
    kids = []
    for i in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with os.fdopen(w, "wb") as fh:
                    pickle.dump(fn(i), fh)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    out, failed = [], False
    for pid, r in kids:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        _, status = os.waitpid(pid, 0)
        if status != 0:
            failed = True
        else:
            out.append(pickle.loads(data))
    if failed:
        print("ERROR: an exploring process failed", flush=True)
        sys.exit(2)
    return out
