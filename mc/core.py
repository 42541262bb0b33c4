"""Exhaustive bounded exploration driver.

A check is a list of Space objects.  Each Space enumerates *all* of its case descriptors (tuples of ints/strings,
JSON-able) in a fixed order; run(desc, ctx) builds the concrete case, executes the real code and compares it with
the reference model.  The driver shards the enumeration over worker processes, so every case is executed exactly once.
"""
import glob
import importlib
import itertools
import json
import os
import signal
import sys
import time
import traceback
import warnings
from multiprocessing import get_context

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
CASE_SECONDS = 40
GLOBAL_SECONDS = 840


class Mismatch(Exception):
    """The implementation disagrees with the reference model (or the property) on this case."""

    def __init__(self, what, input=None, expected=None, observed=None, key=None):
        super().__init__(what)
        self.what = what
        self.input = input
        self.expected = expected
        self.observed = observed
        self.key = key


class CaseTimeout(Exception):
    pass


def _clip(x, n=6000):
    if x is None:
        return None
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n // 2] + " ...<%d chars>... " % (len(s) - n) + s[-n // 2:]


class Ctx:
    """Per-worker counters.  Everything reported as coverage is counted here, on this run."""

    def __init__(self, tier):
        self.tier = tier
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.executions = 0
        self.compared = 0
        self.samples = []
        self.extra = {}
        self.last_input = None

    def state(self, x):
        self.states.add(hash(x))

    def outcome(self, x):
        self.outcomes.add(hash(x))

    def step(self, n=1):
        self.transitions += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def call(self, f, *a, **k):
        """Run a piece of the code under test; any exception is a disagreement with the model."""
        self.executions += 1
        if a and self.last_input is None:
            self.last_input = a[0] if isinstance(a[0], str) else describe(a[0])
        try:
            return f(*a, **k)
        except (CaseTimeout, Mismatch):
            raise
        except Exception as e:
            raise Mismatch(
                "unexpected %s: %s" % (type(e).__name__, e),
                input=_clip([x for x in a if isinstance(x, (str, int, float))]),
                observed=traceback.format_exc(limit=-6),
            )

    def call_exc(self, f, *a, **k):
        """As call, but returns (value, exception)."""
        self.executions += 1
        try:
            return f(*a, **k), None
        except (CaseTimeout, Mismatch):
            raise
        except Exception as e:
            return None, e



def describe(cs):
    """readable form of a caption set (for samples)"""
    try:
        return repr({l: [(c.start, c.end, c.nodes) for c in cs.get_captions(l)] for l in cs.get_languages()})
    except Exception:
        return repr(cs)


# ---------------------------------------------------------------- enumerators
def prod(*domains):
    """every vector of indices into the domains"""
    return itertools.product(*[range(d if isinstance(d, int) else len(d)) for d in domains])


def n_prod(*domains):
    n = 1
    for d in domains:
        n *= d if isinstance(d, int) else len(d)
    return n


def devs(sizes, k):
    """every index vector with at most k components different from 0 (the default), fewest deviations first"""
    sizes = [d if isinstance(d, int) else len(d) for d in sizes]
    base = [0] * len(sizes)
    for j in range(k + 1):
        for pos in itertools.combinations(range(len(sizes)), j):
            for vals in itertools.product(*[range(1, sizes[p]) for p in pos]):
                v = base[:]
                for p, x in zip(pos, vals):
                    v[p] = x
                yield tuple(v)


def seqs(n, lo, hi):
    """every index sequence of length lo..hi over an alphabet of n letters, shortest first"""
    n = n if isinstance(n, int) else len(n)
    for length in range(lo, hi + 1):
        yield from itertools.product(range(n), repeat=length)


class Space:
    """cases: callable -> iterator of descriptors; run(desc, ctx)"""

    def __init__(self, name, bound, cases, run):
        self.name = name
        self.bound = bound
        self.cases = cases
        self.run = run


# ---------------------------------------------------------------- driver
def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(space, desc, ctx):
    """-> None or Mismatch"""
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    try:
        if len(ctx.samples) < 2:
            ctx.last_input = None
        space.run(desc, ctx)
        ctx.compared += 1
        if len(ctx.samples) < 2 and ctx.last_input is not None:
            ctx.samples.append({"space": space.name, "case": repr(desc), "input": _clip(ctx.last_input, 700)})
        return None
    except Mismatch as m:
        return m
    except CaseTimeout:
        return Mismatch("no answer within %d s" % CASE_SECONDS)
    except Exception as e:  # output so strange that the reference parser cannot even look at it
        return Mismatch("reference model could not interpret the result: %s: %s" % (type(e).__name__, e),
                        observed=traceback.format_exc(limit=-8))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(conn, spaces, shard, nshards, tier, known, deadline):
    signal.signal(signal.SIGALRM, _alarm)
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(5000)
    ctx = Ctx(tier)
    violations, knowns, per_space, capped = [], {}, {}, []
    hung = False
    try:
        for si, space in enumerate(spaces):
            n = bad = 0
            last_check = 0
            for ci, desc in enumerate(itertools.islice(space.cases(), shard, None, nshards)):
                m = run_case(space, desc, ctx)
                n += 1
                if m is not None:
                    if m.key is not None and m.key in known:
                        knowns.setdefault(m.key, [0, m.what, _clip(m.input, 800)])[0] += 1
                    else:
                        violations.append((si, ci * nshards + shard, space.name, desc, m.what, _clip(m.input),
                                           _clip(m.expected), _clip(m.observed), m.key))
                        bad += 1
                        hung = m.what.startswith("no answer within")
                        if bad >= 3 or hung:
                            break
                if n - last_check >= 50:
                    last_check = n
                    if time.time() > deadline:
                        capped.append(space.name)
                        break
            per_space[space.name] = n
            if time.time() > deadline:
                break
            if hung:
                break
        conn.send(("ok", (violations, knowns, per_space, capped, ctx.states, ctx.outcomes, ctx.transitions,
                          ctx.executions, ctx.compared, ctx.samples, ctx.extra)))
    except BaseException:
        conn.send(("err", traceback.format_exc()))
    finally:
        conn.close()


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    out = {}
    if os.path.exists(path):
        for e in json.load(open(path)).get("findings", []):
            if e.get("property") == prop:
                out[e["key"]] = e
    return out


def run_check(prop, spaces, tier, seed, level="model_checking", assumptions=(), workers=None, extra_coverage=None):
    t0 = time.time()
    known = load_known(prop)
    workers = workers or int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    mp = get_context("fork")
    deadline = t0 + float(os.environ.get("MC_DEADLINE", GLOBAL_SECONDS if tier == "quick" else 6 * 3600))
    procs = []
    for w in range(workers):
        r, s = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(s, spaces, (w + seed) % workers, workers, tier, set(known), deadline))
        p.start()
        s.close()
        procs.append((p, r))
    viol, knowns, per_space, capped = [], {}, {}, set()
    states, outcomes = set(), set()
    trans = execs = compared = 0
    samples, extra, errors = [], {}, []
    for p, r in procs:
        try:
            kind, data = r.recv()
        except EOFError:
            kind, data = "err", "worker died without an answer"
        p.join()
        if kind == "err":
            errors.append(data)
            continue
        v, k, ps, cp, st, oc, tr, ex, cm, sm, xt = data
        viol += v
        for key, (cnt, what, inp) in k.items():
            knowns.setdefault(key, [0, what, inp])[0] += cnt
        for n, c in ps.items():
            per_space[n] = per_space.get(n, 0) + c
        capped |= set(cp)
        states |= st
        outcomes |= oc
        trans += tr
        execs += ex
        compared += cm
        samples += sm
        for n, c in xt.items():
            extra[n] = extra.get(n, 0) + c
    if errors:
        sys.stderr.write("\n".join(errors))
        return 2
    viol.sort(key=lambda v: (v[0], v[1]))
    for old in glob.glob(os.path.join(ROOT, "replays", prop, tier + "-*.json")):
        os.unlink(old)
    total = sum(per_space.values())
    coverage = {
        "states": len(states),
        "transitions": trans,
        "traces_validated_against_impl": compared,
        "executions_of_real_code": execs,
        "distinct_model_outcomes": len(outcomes),
        "cases": total,
        "cases_per_space": {s.name: {"bound": s.bound, "cases": per_space.get(s.name, 0)} for s in spaces},
        "exhaustive": not capped and not viol,
        "capped_spaces": sorted(capped),
        "samples": samples[::max(1, len(samples) // 6)][:6] or ["(none)"],
        "rule": "every case of every listed space is enumerated and executed on the code in /repo and compared with "
                "the reference model; states = distinct model inputs/states, transitions = generator/model steps",
        "workers": workers,
    }
    coverage.update(extra)
    if extra_coverage:
        coverage.update(extra_coverage)
    if knowns:
        coverage["known_findings_hit"] = {k: v[0] for k, v in knowns.items()}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    for key, (cnt, what, inp) in sorted(knowns.items()):
        print("KNOWN-FINDING: property=%s %s [%s; %d cases]" % (prop, known[key].get("what", what), key, cnt))
    if viol:
        d = os.path.join(ROOT, "replays", prop)
        os.makedirs(d, exist_ok=True)
        shown = {}
        k = 0
        for (si, ci, name, desc, what, inp, exp, obs, key) in viol:
            if shown.get(name, 0) >= 2:
                continue
            shown[name] = shown.get(name, 0) + 1
            path = os.path.join(d, "%s-%02d.json" % (tier, k))
            with open(path, "w") as f:
                json.dump({"property": prop, "space": name, "case": desc, "case_index": ci, "what": what, "input": inp,
                           "expected": exp, "observed": obs, "key": key, "tier": tier,
                           "how": "cd /verif && ./replay.sh " + path}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  space=%s case=%r: %s" % (name, desc, what))
            k += 1
            if k >= 16:
                break
    print("%s %s: %d cases, %d states, %d transitions, %d executions of the real code, %d outcomes, %d violations, %.1fs%s"
          % (prop, tier, total, len(states), trans, execs, len(outcomes), len(viol), time.time() - t0,
             " CAPPED " + ",".join(sorted(capped)) if capped else ""))
    return 1 if viol else 0


def setup_path():
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pycaption
    real = os.path.realpath(pycaption.__file__)
    assert real.startswith(os.path.realpath(REPO) + os.sep), real


def detuple(x):
    return tuple(detuple(y) for y in x) if isinstance(x, list) else x


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    setup_path()
    mod = importlib.import_module("mc.checks." + prop.lower())
    only = os.environ.get("MC_SPACE")
    spaces = mod.spaces(tier)
    if only:
        spaces = [s for s in spaces if s.name in only.split(",")]
    return run_check(prop, spaces, tier, seed, assumptions=getattr(mod, "ASSUMPTIONS", ()),
                     level=getattr(mod, "LEVEL", "model_checking"))


def replay(path):
    rec = json.load(open(path))
    setup_path()
    mod = importlib.import_module("mc.checks." + rec["property"].lower())
    signal.signal(signal.SIGALRM, _alarm)
    for s in mod.spaces(rec.get("tier", "quick")):
        if s.name == rec["space"]:
            m = run_case(s, detuple(rec["case"]), Ctx(rec.get("tier", "quick")))
            if m is None:
                print("case passes on the current tree")
                return 0
            print("VIOLATION property=%s replay=%s" % (rec["property"], path))
            for n in ("what", "input", "expected", "observed"):
                v = getattr(m, n)
                print("--- %s\n%s" % (n, v if isinstance(v, str) else repr(v)))
            return 1
    print("no such space: " + rec["space"])
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
