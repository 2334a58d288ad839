"""Explicit-state explorer core.

A check is a set of *scenarios*.  A scenario is a deterministic exploration of
the real code from one initial configuration: it enumerates every operation (or
operation sequence, or environment answer, or schedule) of a finite alphabet,
and compares what the code does, step by step, with the reference model.

Every scenario counts
  states       distinct canonical model states it reached,
  transitions  model steps it took, each executed on the real code and compared,
  traces       complete model traces replayed on the real code without a
               disagreement,
and keeps a short tail of the current trace, which is what a violation prints.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SKYMAP_REPO", "/repo")
OUT = os.environ.get("MC_OUT", HERE)      # where evidence and replays are written
KNOWN_FILE = os.path.join(HERE, "KNOWN_FINDINGS.txt")


class Violation(Exception):
    pass


class Ctx:
    """Recorder handed to a scenario."""

    def __init__(self, prop, key, known):
        self.prop = prop
        self.key = key
        self._known = known
        self.known_hit = set()
        self._states = set()
        self.transitions = 0
        self.traces = 0
        self.tail = []
        self.samples = []
        self.outcomes = set()
        self.notes = {}

    # -- counting
    def state(self, *key):
        """Register a canonical state; True if it is new."""
        h = hash(repr(key))
        if h in self._states:
            return False
        self._states.add(h)
        return True

    def step(self, *label):
        self.transitions += 1
        self.tail.append(label)
        if len(self.tail) > 60:
            del self.tail[:30]

    def steps(self, n, *label):
        """n transitions checked as one vectorized comparison."""
        self.transitions += n
        self.tail.append(label + ("x%d" % n,))

    def begin(self, *label):
        """Start a new trace."""
        self.tail = [label] if label else []

    def end(self, outcome=None):
        """The current trace is complete and agreed with the model."""
        self.traces += 1
        if outcome is not None and len(self.outcomes) < 100000:
            self.outcomes.add(outcome if isinstance(outcome, (str, int)) else repr(outcome))
        if len(self.samples) < 2 and self.tail:
            self.samples.append(" ; ".join(" ".join(str(x) for x in t) for t in self.tail[:6])[:400])

    # -- judging
    def fail(self, msg, sig=None):
        """Report a disagreement. ``sig`` identifies it for the known-findings file."""
        if sig is not None and (self.prop, sig) in self._known:
            self.known_hit.add(sig)
            return
        raise Violation(msg)

    def check(self, cond, msg, *args, sig=None):
        if not cond:
            self.fail(msg % args if args else msg, sig=sig)

    def equal(self, got, want, what, *args, sig=None):
        if not (got == want):
            self.fail("%s: got %r, expected %r" % (what % args if args else what, got, want), sig=sig)

    def raises(self, exc, func, what):
        """func() must raise exc (or a subclass)."""
        try:
            r = func()
        except exc as e:
            return e
        except Exception as e:
            self.fail("%s: raised %s (%s), expected %s" % (what, type(e).__name__, e, exc))
        else:
            self.fail("%s: returned %r, expected %s to be raised" % (what, r, exc))


class Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise Timeout()


def load_known(path=None):
    """Lines 'KNOWN property=<id> sig=<signature> <text>' are open findings."""
    known = {}
    try:
        with open(path or KNOWN_FILE) as f:
            for line in f:
                parts = line.strip().split(None, 3)
                if len(parts) >= 3 and parts[0] == "KNOWN":
                    known[(parts[1].split("=", 1)[1], parts[2].split("=", 1)[1])] = parts[3] if len(parts) > 3 else ""
    except FileNotFoundError:
        pass
    return known


def run_scenario(modname, index, tier, limit):
    """Run one scenario in a worker; never raises."""
    mod = importlib.import_module(modname)
    sc = mod.SCENARIOS_CACHE[tier][index] if hasattr(mod, "SCENARIOS_CACHE") else None
    if sc is None:
        sc = scenarios(mod, tier)[index]
    name, func, args = sc
    ctx = Ctx(mod.ID, name, load_known())
    t0 = time.time()
    viol = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        func(ctx, *args)
    except Violation as e:
        viol = str(e)
    except Timeout:
        viol = "no answer within %d s" % limit
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        viol = "unexpected %s: %s\n%s" % (type(e).__name__, e, tb)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return dict(name=name, index=index, states=len(ctx._states), transitions=ctx.transitions,
                traces=ctx.traces, samples=ctx.samples, violation=viol,
                tail=[" ".join(str(x) for x in t)[:600] for t in ctx.tail[-30:]] if viol else [],
                known=sorted(ctx.known_hit), outcomes=len(ctx.outcomes), notes=ctx.notes,
                wall=time.time() - t0)


def scenarios(mod, tier):
    cache = getattr(mod, "SCENARIOS_CACHE", None)
    if cache is None:
        cache = mod.SCENARIOS_CACHE = {}
    if tier not in cache:
        lst = list(mod.scenarios(tier))
        names = [s[0] for s in lst]
        assert len(set(names)) == len(names), "scenario names not unique"
        cache[tier] = lst
    return cache[tier]


def _limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _worker(args):
    return run_scenario(*args)


def run_check(prop, tier, seed, only=None, jobs=None):
    """run_check_in with a scratch directory that is removed afterwards."""
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    old = tempfile.tempdir
    tempfile.tempdir = scratch
    try:
        return run_check_in(prop, tier, seed, only, jobs)
    finally:
        tempfile.tempdir = old
        shutil.rmtree(scratch, ignore_errors=True)


def run_check_in(prop, tier, seed, only=None, jobs=None):
    t0 = time.time()
    modname = "mc.props." + prop.lower()
    limit = 420 if tier == "quick" else 3000
    res = []
    error = None
    try:
        import shim
        shim.install()
        mod = importlib.import_module(modname)
        scs = scenarios(mod, tier)
    except Exception:
        # The code under test could not even be imported or configured.
        error = traceback.format_exc()
    if error is None:
        idx = list(range(len(scs)))
        if only is not None:
            idx = [i for i in idx if scs[i][0] == only] or [i for i in idx if only.endswith("*") and scs[i][0].startswith(only[:-1])]
            if not idx:
                print("no such scenario: %s" % only)
                return 2
        random.Random(seed).shuffle(idx)      # order only: every scenario runs
        jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(idx)))
        tasks = [(modname, i, tier, limit) for i in idx]
        first = os.environ.get("MC_FIRST")    # for trials of planted bugs: stop at the first violation
        if jobs == 1:
            for t in tasks:
                res.append(_worker(t))
                if first and res[-1]["violation"]:
                    break
        else:
            with mp.get_context("fork").Pool(jobs, _limit_memory) as pool:
                for r in pool.imap_unordered(_worker, tasks, chunksize=1):
                    res.append(r)
                    if first and r["violation"]:
                        pool.terminate()
                        break
        res.sort(key=lambda r: r["index"])
    level = getattr(mod, "LEVEL", "model_checking") if error is None else "model_checking"
    bad = [r for r in res if r["violation"]]
    known = sorted({k for r in res for k in r["known"]})
    texts = load_known()
    for k in known:
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, texts.get((prop, k), "")))
    rc = 0
    if error is not None:
        bad = [dict(name="import", violation=error, tail=[], index=0)]
    if bad:
        rc = 1
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        for r in bad[:5]:
            path = os.path.join("replays", "%s-%s.json" % (
                prop, hashlib.sha1(r["name"].encode()).hexdigest()[:10]))
            with open(os.path.join(OUT, path), "w") as f:
                json.dump(dict(property=prop, tier=tier, scenario=r["name"], violation=r["violation"],
                               trace=r["tail"],
                               replay="cd %s && /opt/venv/bin/python -m mc %s --tier %s --only '%s'"
                                      % (HERE, prop, tier, r["name"])), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  scenario %s" % r["name"])
            for t in r["tail"][-8:]:
                print("    . %s" % t[:300])
            print("  %s" % r["violation"][-1500:])
        if len(bad) > 5:
            print("  (%d more scenarios violated)" % (len(bad) - 5))
    tot = {k: sum(r[k] for r in res) for k in ("states", "transitions", "traces", "outcomes")}
    samples = []
    for r in res:
        for s in r["samples"][:1]:
            samples.append("[%s] %s" % (r["name"], s))
    step = max(1, len(samples) // 6)
    notes = {}
    for r in res:
        for k, v in r["notes"].items():
            if isinstance(v, (int, float)):
                notes[k] = notes.get(k, 0) + v
    cov = dict(exhaustive=True, scenarios=len(res), distinct_outcomes=tot["outcomes"],
               bounds=getattr(mod, "BOUNDS", {}).get(tier, "") if error is None else "",
               rule=getattr(mod, "RULE", "") if error is None else "", samples=samples[::step][:6])
    if level == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"],
                   traces_validated_against_impl=tot["traces"])
    else:
        cov.update(evaluations=tot["traces"], distinct_nontrivial=tot["states"], steps=tot["transitions"])
    cov.update(notes)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) if error is None else [],
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    if only is None:
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        tmp = os.path.join(OUT, "evidence", "." + prop + ".tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(OUT, "evidence", prop + ".json"))
    print("%s %s: %s; scenarios=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs" % (
        prop, tier, "VIOLATED" if rc else "held", len(res), tot["states"], tot["transitions"],
        tot["traces"], tot["outcomes"], time.time() - t0))
    if os.environ.get("MC_SLOW"):
        for r in sorted(res, key=lambda r: -r["wall"])[:10]:
            print("   %.1fs %s" % (r["wall"], r["name"]))
    return rc
