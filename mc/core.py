"""Runner shared by all checks.

A check module (mc.checks.cNN) provides

  PROPERTY   the property id
  BOUNDS     dict tier -> text: the bounds that tier enumerates completely
  MEANING    what one state / transition / trace of the exploration is
  units(tier)            -> iterable of JSON-able work units (the whole bounded space, partitioned)
  run_unit(unit, ctx)    -> explores that part of the space on the real code

The runner partitions the units over worker processes, adds up what was visited, writes the
evidence file, and turns every disagreement into a replay file and a VIOLATION line.
"""
import concurrent.futures as cf
import faulthandler
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Hang(BaseException):
    """The code under test did not come back within the horizon."""


class StandInGap(AttributeError):
    """A stand-in for a third-party package does not model what the code asked of it."""


class Stop(BaseException):
    """Enough violations in this unit."""


def setup_imports():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # never trust cached bytecode of the tree under test
    sys.pycache_prefix = "/nonexistent-mc-pycache"


def _on_alarm(signum, frame):
    raise Hang("no answer within the horizon (signal %d)" % signum)


class horizon:
    """CPU-time (and generous wall-time) horizon around one execution of the code under test."""

    def __init__(self, cpu=20.0, wall=240.0):
        self.cpu, self.wall = cpu, wall

    def __enter__(self):
        # nests: an inner horizon suspends the outer one and resumes what was left of it
        self.outer = (signal.setitimer(signal.ITIMER_PROF, self.cpu)[0],
                      signal.setitimer(signal.ITIMER_REAL, self.wall)[0])
        return self

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_PROF, self.outer[0])
        signal.setitimer(signal.ITIMER_REAL, self.outer[1])
        return False


def jsonable(x):
    if isinstance(x, dict):
        return {str(k) if not isinstance(k, str) else k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Ctx:
    MAX_FAILS = 3

    def __init__(self, prop, tier, known):
        self.prop, self.tier, self.known = prop, tier, known
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.fails = []
        self.known_hits = set()
        self.gaps = {}
        self.counters = {}
        self.unit = None

    # -- coverage -----------------------------------------------------------------------
    def state(self, n=1):
        self.states += n

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(key))

    def sample(self, case):
        if len(self.samples) < 2:
            self.samples.append(jsonable(case))

    # -- verdicts -----------------------------------------------------------------------
    def fail(self, what, case=None, sig=None):
        if sig is not None and sig in self.known:
            self.known_hits.add(sig)
            return
        if callable(case):
            case = case()
        self.fails.append({"what": what, "case": jsonable(case), "sig": sig, "unit": self.unit})
        if len(self.fails) >= self.MAX_FAILS:
            raise Stop()

    def check(self, ok, what, case=None, sig=None):
        if not ok:
            self.fail(what, case, sig)
        return ok

    def guard(self, fn, what, case=None, sig=None, cpu=20.0):
        """Run fn() on the real code; an exception or a hang is a violation.  Returns (ok, value)."""
        try:
            with horizon(cpu):
                return True, fn()
        except Stop:
            raise
        except StandInGap as e:
            self.gaps[str(e)] = self.gaps.get(str(e), 0) + 1
            return False, None
        except Hang as e:
            self.fail("%s: %s" % (what, e), case, sig)
            return False, None
        except Exception as e:  # pylint: disable=broad-except
            self.fail("%s: unexpected %s: %s\n%s" % (
                what, type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-4:])), case, sig)
            return False, None

    def raises(self, fn, excs, what, case=None, sig=None):
        """fn() must raise one of excs."""
        try:
            with horizon():
                r = fn()
        except excs:
            return True
        except Stop:
            raise
        except StandInGap as e:
            self.gaps[str(e)] = self.gaps.get(str(e), 0) + 1
            return False
        except Hang as e:
            self.fail("%s: %s" % (what, e), case, sig)
            return False
        except Exception as e:  # pylint: disable=broad-except
            self.fail("%s: expected %s, got %s: %s" % (what, excs, type(e).__name__, e), case, sig)
            return False
        self.fail("%s: expected %s, but it returned %r" % (what, excs, r), case, sig)
        return False

    def result(self):
        return {
            "states": self.states, "transitions": self.transitions, "traces": self.traces,
            "outcomes": self.outcomes, "samples": self.samples, "fails": self.fails,
            "known_hits": self.known_hits, "gaps": self.gaps, "counters": self.counters,
        }


_MOD = None
_ARGS = None


def _worker_init(modname, prop, tier, known):
    global _MOD, _ARGS
    faulthandler.enable()
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    setup_imports()
    _ARGS = (prop, tier, known)
    _MOD = importlib.import_module(modname)


def run_units(units):
    ctx = Ctx(*_ARGS)
    for unit in units:
        ctx.unit = unit
        try:
            with horizon(getattr(_MOD, "UNIT_CPU", 120.0), 600.0):
                _MOD.run_unit(unit, ctx)
        except Stop:
            break
        except StandInGap as e:
            ctx.gaps[str(e)] = ctx.gaps.get(str(e), 0) + 1
        except Hang as e:
            ctx.fails.append({"what": "no answer: %s\n%s" % (e, "".join(
                traceback.format_tb(e.__traceback__)[-4:])), "case": None, "sig": None, "unit": unit})
            break
        except Exception as e:  # pylint: disable=broad-except
            tb = traceback.extract_tb(e.__traceback__)
            in_repo = any(f.filename.startswith(REPO + "/causalnex") for f in tb)
            text = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
            if in_repo or isinstance(e, (ImportError,)):
                ctx.fails.append({"what": "unexpected exception: " + text, "case": None, "sig": None, "unit": unit})
                break
            if isinstance(e, (AttributeError, TypeError, KeyError, IndexError, ValueError)):
                # The check reads only documented results, and reads them all without complaint on the real tree:
                # one that it cannot read (a tuple for a table, None for a number) is not what the code promises.
                ctx.fails.append({"what": "a result is not of the documented kind: " + text, "case": None, "sig": None,
                                  "unit": unit})
                break
            raise RuntimeError("harness error in unit %r:\n%s" % (unit, text)) from None
    return ctx.result()


def _chunks(units, n):
    for i in range(0, len(units), n):
        yield units[i:i + n]


def load_known(prop):
    if not os.path.exists(KNOWN):
        return {}
    data = json.load(open(KNOWN))
    return {f["sig"]: f["what"] for f in data.get("findings", []) if f["property"] == prop}


def main(prop, tier, seed, replay=None, jobs=None):
    t0 = time.time()
    modname = "mc.checks." + prop.lower()
    known = load_known(prop)
    setup_imports()
    mod = importlib.import_module(modname)
    budget = float(os.environ.get("MC_BUDGET_S", {"quick": 420, "thorough": 12000}[tier]))

    if replay:
        case = json.load(open(replay))
        _worker_init(modname, prop, tier, {})
        res = run_units([case["unit"]])
        for f in res["fails"]:
            print(json.dumps(f, indent=1, default=repr))
        print("REPLAY %s: %s" % (replay, "violation reproduced" if res["fails"] else "no violation"))
        return 1 if res["fails"] else 0

    units = list(mod.units(tier))
    jobs = jobs or int(os.environ.get("MC_JOBS", "8"))
    chunk = max(1, min(getattr(mod, "CHUNK", 64), (len(units) + jobs * 4 - 1) // (jobs * 4)))
    # spread neighbouring (similar-cost) units over the chunks, simplest first within each chunk
    nchunks = (len(units) + chunk - 1) // chunk
    groups = [units[i::nchunks] for i in range(nchunks)]
    tot = {"states": 0, "transitions": 0, "traces": 0}
    outcomes, samples, fails, known_hits, gaps, counters = set(), [], [], set(), {}, {}
    capped = 0
    done_units = 0
    ctxm = mp.get_context("fork")
    ex = cf.ProcessPoolExecutor(jobs, mp_context=ctxm, initializer=_worker_init,
                                initargs=(modname, prop, tier, known))
    error = None
    try:
        futs = {ex.submit(run_units, g): len(g) for g in groups}
        pending = set(futs)
        while pending:
            done, pending = cf.wait(pending, timeout=max(0.1, t0 + budget - time.time()),
                                    return_when=cf.FIRST_COMPLETED)
            for f in done:
                try:
                    r = f.result()
                except cf.process.BrokenProcessPool as e:
                    error = "a worker died: %s" % e
                    break
                done_units += futs[f]
                for k in tot:
                    tot[k] += r[k]
                outcomes |= r["outcomes"]
                samples.extend(r["samples"])
                fails.extend(r["fails"])
                known_hits |= r["known_hits"]
                for k, v in r["gaps"].items():
                    gaps[k] = gaps.get(k, 0) + v
                for k, v in r["counters"].items():
                    counters[k] = counters.get(k, 0) + v
            if error or fails:
                break
            if time.time() - t0 > budget and pending:
                capped = sum(futs[f] for f in pending)
                break
    finally:
        for p in list((ex._processes or {}).values()):  # pylint: disable=protected-access
            if capped or error or fails:
                p.kill()
        ex.shutdown(wait=True, cancel_futures=True)

    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {
        "states": tot["states"], "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["traces"],
        "samples": samples[:6],
        "distinct_observed_outcomes": len(outcomes),
        "work_units": len(units), "work_units_completed": done_units,
        "exhaustive": not capped and not fails and not gaps,
        "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        "meaning": mod.MEANING,
    }
    if counters:
        cov["counters"] = counters
    if capped:
        cov["capped"] = "time cap of %.0f s hit: %d of %d work units not explored" % (budget, capped, len(units))
    if gaps:
        cov["not_explored_stand_in_gaps"] = gaps
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(fails),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)

    for sig in sorted(known_hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[sig]))
    for g, n in gaps.items():
        print("NOT-EXPLORED: property=%s stand-in gap (%d times): %s" % (prop, n, g))
    if error:
        print("ERROR property=%s %s" % (prop, error))
        return 2
    if fails:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        fails.sort(key=lambda f: len(json.dumps(f["unit"], default=repr)))
        for i, f in enumerate(fails[:3]):
            path = os.path.join(rdir, "%s-%d.json" % (prop, i))
            with open(path, "w") as fh:
                json.dump(dict(property=prop, **f), fh, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + f["what"].replace("\n", "\n  "))
            print("  case: " + json.dumps(f["case"], default=repr)[:1500])
        return 1
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d outcomes=%d units=%d%s wall=%.1fs" % (
        prop, tier, tot["states"], tot["transitions"], tot["traces"], len(outcomes), done_units,
        " CAPPED(%d left)" % capped if capped else "", wall))
    return 0


def cli():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(main(a.property, a.tier, seed, a.replay, a.jobs))
