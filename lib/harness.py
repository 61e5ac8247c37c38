"""Monitor harness: drives the real code case by case and judges what it returns.

A property module (props/cNN.py) registers *cases* with @case(quick=.., thorough=..).  Each case gets
a `T` object: a private random generator, the imported package, and the judging methods (`eq`, `true`,
`raises` ...).  The first disagreement ends the case with a Violation; so does any exception out of the
code under observation.  The runner executes the cases in worker processes, merges what they observed,
writes evidence/<id>.json and decides the verdict:

  exit 0  held on everything observed       exit 1  VIOLATION line + replay file
  exit 2  inconclusive (nothing observed, watchdog, harness cannot start)
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import zlib

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True

import numpy as np      # noqa: E402

import overlay          # noqa: E402

VERIF = overlay.VERIF
CASES = []              # (function, quick count, thorough count)
STARTERS = []           # functions of the run called in each worker before any case
WATCHDOG_S = 240        # one case taking longer than this is inconclusive


class Violation(Exception):
    pass


class Watchdog(BaseException):
    pass


def case(quick, thorough, label=None):
    def deco(fn):
        fn.label = label or fn.__name__
        CASES.append((fn, quick, thorough))
        return fn
    return deco


def show(x, limit=6):
    """Short, readable, deterministic description of a value."""
    try:
        import astropy.units as u
        if isinstance(x, u.Quantity):
            return "{} {}".format(show(x.value, limit), x.unit)
    except Exception:   # pragma: no cover
        pass
    if isinstance(x, np.ndarray):
        flat = x.ravel()
        body = ", ".join(repr(v.item() if hasattr(v, "item") else v) for v in flat[:limit])
        return "array{}[{}{}]".format(list(x.shape), body, ", ..." if flat.size > limit else "")
    if isinstance(x, dict):
        return "{" + ", ".join("{}: {}".format(k, show(v, limit)) for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)) and len(x) > limit:
        return "[{}, ...]({})".format(", ".join(show(v, limit) for v in x[:limit]), len(x))
    r = repr(x)
    return r if len(r) < 300 else r[:300] + "..."


class T:
    """One case: randomness, the package under observation, and the judge."""

    def __init__(self, run, fn, index):
        self.run, self.fn, self.index = run, fn, index
        self.L = run.L
        self.tier = run.tier
        self.rng = np.random.default_rng([run.seed, zlib.crc32(fn.label.encode()), index])
        self.notes = {}

    # ---- bookkeeping
    def note(self, **kw):
        self.notes.update(kw)

    def seen(self, *key):
        """Record that this case reached a distinct, non-trivial situation."""
        self.run.distinct.add(hashlib.blake2b(repr((self.fn.label,) + key).encode(), digest_size=8).hexdigest())

    def count(self, name, n=1):
        self.run.counters[name] = self.run.counters.get(name, 0) + int(n)

    def _dev(self, name, ratio):
        name = name.split(" [")[0]
        if ratio > self.run.maxdev.get(name, 0.0):
            self.run.maxdev[name] = float(ratio)

    # ---- verdicts
    def fail(self, name, **info):
        lines = ["{}: {}".format(k, show(v)) for k, v in {**self.notes, **info}.items()]
        raise Violation("{} | {}".format(name, " | ".join(lines)))

    def true(self, name, cond, **info):
        self.run.comparisons += 1
        if not bool(np.all(cond)):
            self.fail(name, **info)

    def eq(self, name, got, want, rtol=1e-9, atol=0.0, **info):
        """Shapes equal and |got - want| <= atol + rtol |want| element-wise; inf only where inf is expected."""
        self.run.comparisons += 1
        if hasattr(got, "unit") or hasattr(want, "unit"):
            self.fail(name + ": expected plain numbers", got=got, want=want, **info)
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail(name + ": shape {} instead of {}".format(g.shape, w.shape), got=g, want=w, **info)
        if g.size == 0:
            return
        if g.dtype.kind not in "fiub" or w.dtype.kind not in "fiub":
            if not np.array_equal(g, w):
                self.fail(name, got=g, want=w, **info)
            return
        g, w = g.astype(float), w.astype(float)
        same = (g == w)
        with np.errstate(invalid="ignore", over="ignore"):
            tol = np.broadcast_to(atol + rtol * np.abs(w), w.shape)
            err = np.abs(g - w)
            ok = same | (np.isfinite(g) & np.isfinite(w) & (err <= tol))
            ratio = np.where(same, 0.0, err / np.where(tol > 0, tol, np.nan))
        if not ok.all():
            k = np.unravel_index(np.argmax(~ok), g.shape) if g.ndim else ()
            self.fail(name, got=g[k], want=w[k], where=tuple(int(i) for i in k), bad=int((~ok).sum()),
                      of=int(g.size), **info)
        r = np.nanmax(ratio) if np.isfinite(ratio).any() else 0.0
        self._dev(name, r)

    def le(self, name, got, bound, **info):
        """got <= bound element-wise (NaN fails)."""
        self.run.comparisons += 1
        g, b = np.broadcast_arrays(np.asarray(got, float), np.asarray(bound, float))
        ok = g <= b
        if not ok.all():
            k = np.unravel_index(np.argmax(~ok), g.shape) if g.ndim else ()
            self.fail(name, got=g[k], bound=b[k], where=tuple(int(i) for i in k), bad=int((~ok).sum()), **info)

    def same(self, name, got, want, **info):
        """Bit-identical arrays / quantities."""
        self.run.comparisons += 1
        a, b = digest(got), digest(want)
        if a != b:
            self.fail(name + ": not identical", got=got, want=want, **info)

    def val(self, name, q, unit):
        """Value of a Quantity in `unit`; refuses plain numbers and wrong dimensions."""
        import astropy.units as u
        self.run.comparisons += 1
        if not isinstance(q, u.Quantity):
            self.fail(name + ": no unit on the result", got=q)
        try:
            return q.to(unit).value
        except u.UnitConversionError:
            self.fail(name + ": wrong dimension", got=q, unit=str(unit))

    def plain(self, name, x):
        """Value of a dimensionless result: a plain number/array or a dimensionless quantity."""
        import astropy.units as u
        if isinstance(x, u.Quantity):
            return self.val(name, x, u.dimensionless_unscaled)
        return np.asarray(x)

    def raises(self, name, exc, fn, *a, **kw):
        self.run.comparisons += 1
        try:
            out = fn(*a, **kw)
        except exc as e:
            if exc is ValueError and isinstance(e, UnicodeError):
                self.fail(name + ": wrong exception", exception=repr(e))
            return e
        except Exception as e:
            self.fail(name + ": raised {} instead of {}".format(type(e).__name__, getattr(exc, "__name__", exc)),
                      exception=repr(e)[:300])
        self.fail(name + ": accepted instead of raising {}".format(getattr(exc, "__name__", exc)), got=out)


def digest(x):
    """Content digest: values, dtype kind, shape and unit - not identity."""
    import astropy.units as u
    from astropy.coordinates import SkyCoord
    if isinstance(x, SkyCoord):
        d = [x.frame.name]
        for c in ("lon", "lat"):        # also as the caller's object holds them
            v = getattr(x.data, c, None)
            d.append((c, digest(v), str(getattr(v, "wrap_angle", None))))
        for c in ("lon", "lat", "distance", "l", "b", "ra", "dec"):
            if hasattr(x, c):
                try:
                    d.append((c, digest(getattr(x, c))))
                except Exception:
                    pass
        return tuple(d)
    if isinstance(x, u.Quantity):
        return ("Q", str(x.unit), digest(np.asarray(x.value)))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("O", x.shape, tuple(digest(v) for v in x.ravel()))
        return ("A", x.shape, x.dtype.str, hashlib.blake2b(np.ascontiguousarray(x).tobytes(),
                                                         digest_size=16).hexdigest())
    if isinstance(x, dict):
        return ("D", tuple((k, digest(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(digest(v) for v in x))
    if isinstance(x, np.generic):
        return ("A", (), x.dtype.str, x.tobytes())
    if callable(x):
        return ("F", id(x))
    return repr(x)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.distinct, self.counters, self.maxdev = set(), {}, {}
        self.comparisons = self.evaluations = 0
        self.violations, self.samples, self.findings = [], [], []
        self.skipped_time = 0
        self.calls = {}
        self.L = None

    def load(self, with_g):
        self.top = overlay.make(with_g)
        import legwork
        if not os.path.realpath(legwork.__file__).startswith(os.path.realpath(overlay.REPO) + os.sep):
            raise RuntimeError("legwork imported from " + legwork.__file__)
        for m in ("utils", "strain", "psd", "evol", "snr", "source", "visualisation"):
            importlib.import_module("legwork." + m)
        self.L = legwork
        self._observe(legwork)
        import logging
        self.log_level = logging.getLogger("LEGWORK").level
        logging.getLogger("LEGWORK").setLevel(logging.CRITICAL + 1)     # cases about messages reset this

    def start(self):
        for fn in STARTERS:
            fn(self)

    def _observe(self, L):
        """Count the calls the workload makes into the public functions (also nested ones)."""
        import functools
        for m in ("utils", "strain", "psd", "evol", "snr"):
            mod = getattr(L, m)
            for name in getattr(mod, "__all__", []):
                f = getattr(mod, name, None)
                if type(f).__name__ != "function" or name in ("integrate_de_dt", "de_dt"):
                    continue
                key = m + "." + name

                def wrap(f=f, key=key):
                    @functools.wraps(f)
                    def inner(*a, **k):
                        self.calls[key] = self.calls.get(key, 0) + 1
                        return f(*a, **k)
                    return inner
                setattr(mod, name, wrap())

    def one(self, fn, index):
        t = T(self, fn, index)
        np.random.seed(zlib.crc32("{}/{}/{}".format(self.seed, fn.label, index).encode()))

        def ring(*_):
            raise Watchdog("case {} {} exceeded {} s".format(fn.label, index, WATCHDOG_S))
        old = signal.signal(signal.SIGALRM, ring)
        signal.alarm(WATCHDOG_S)
        out = io.StringIO()
        before = self.comparisons
        try:
            import warnings
            with contextlib.redirect_stdout(out), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn(t)
        except Violation as e:
            self.violations.append((fn.label, index, str(e), ""))
        except Watchdog:
            raise
        except Exception as e:
            tb = traceback.format_exc()
            self.violations.append((fn.label, index, "unexpected {}: {} | {}".format(
                type(e).__name__, str(e)[:200], " | ".join("{}: {}".format(k, show(v)) for k, v in t.notes.items())),
                tb))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        self.evaluations += 1
        if self.comparisons == before and not self.violations:
            raise RuntimeError("case {} {} judged nothing".format(fn.label, index))
        if len(self.samples) < 40 and index < 2 and t.notes:
            self.samples.append({"case": fn.label, "index": index, **{k: show(v, 4) for k, v in t.notes.items()}})

    def finding(self, text):
        if text not in self.findings:
            self.findings.append(text)

    def dump(self):
        return {k: getattr(self, k) for k in ("counters", "maxdev", "comparisons", "evaluations", "violations",
                                              "samples", "findings", "skipped_time", "calls")} | \
               {"distinct": sorted(self.distinct)}


def known_findings(prop):
    """Open findings of this property: key -> text, from the committed file."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path):
        line = line.strip()
        if line.startswith("KNOWN-FINDING: property={} ".format(prop)):
            key, text = line.split("key=", 1)[1].split(" ", 1)
            out[key] = text
    return out


def worker(prop, tier, seed, k, n, deadline, with_g, pipe):
    run = None
    try:
        run = Run(prop, tier, seed)
        run.load(with_g)
        run.start()
        todo = []
        for fn, q, th in CASES:
            total = q if tier == "quick" else th
            mine = [i for i in range(total) if i % n == k]
            # cases with few repetitions start on different workers
            off = zlib.crc32(fn.label.encode()) % n
            mine = [i for i in range(total) if (i + off) % n == k]
            todo.append((fn, mine))
        # interleave so that a time limit cuts every section alike
        order = sorted(((j + 0.5) / max(len(m), 1), a, i) for a, (f, m) in enumerate(todo) for j, i in enumerate(m))
        first = {}
        for frac, a, i in order:
            fn = todo[a][0]
            if time.time() > deadline:
                run.skipped_time += 1
                continue
            t0 = time.time()
            run.one(fn, i)
            first[fn.label] = first.get(fn.label, 0.0) + time.time() - t0
            if len(run.violations) >= 3:
                break
        run.section_s = first
        d = run.dump()
        d["section_s"] = first
        pipe.send(("ok", d))
    except BaseException as e:
        d = run.dump() if run is not None else None
        pipe.send(("error", "{}: {}\n{}".format(type(e).__name__, e, traceback.format_exc()), d))
    finally:
        try:
            overlay.remove(getattr(run, "top", None))
        except Exception:
            pass
        pipe.close()


def merge(parts):
    tot = {"counters": {}, "maxdev": {}, "calls": {}, "section_s": {}, "comparisons": 0, "evaluations": 0,
           "skipped_time": 0, "violations": [], "samples": [], "findings": [], "distinct": set()}
    for p in parts:
        for k in ("counters", "calls", "section_s"):
            for a, b in p.get(k, {}).items():
                tot[k][a] = tot[k].get(a, 0) + b
        for a, b in p["maxdev"].items():
            tot["maxdev"][a] = max(b, tot["maxdev"].get(a, 0))
        for k in ("comparisons", "evaluations", "skipped_time"):
            tot[k] += p[k]
        for k in ("violations", "samples"):
            tot[k] += p[k]
        tot["findings"] += [f for f in p["findings"] if f not in tot["findings"]]
        tot["distinct"] |= set(p["distinct"])
    return tot


def main(prop, module, tier, seed, replay=None, only=None, jobs=None):
    t0 = time.time()
    mod = importlib.import_module(module)
    if only:
        CASES[:] = [c for c in CASES if c[0].label in only]
    with_g = getattr(mod, "NEEDS_G", False)
    overlay.ensure_tables(with_g)
    if replay is not None:
        r = json.load(open(replay))
        run = Run(prop, r["tier"], r["seed"])
        run.load(with_g)
        try:
            run.start()
            run.one({c[0].label: c[0] for c in CASES}[r["case"]], r["index"])
        finally:
            overlay.remove(run.top)
        for v in run.violations:
            print(v[2])
            print(v[3])
        print("VIOLATION property={} replay={}".format(prop, replay) if run.violations else "replay: held")
        return 1 if run.violations else 0
    n = jobs or (4 if tier == "quick" else 8)
    soft = float(os.environ.get("VERIF_SOFT_S", getattr(mod, "SOFT_S", 150) if tier == "quick" else 660))
    hard = soft + WATCHDOG_S + 60
    deadline = t0 + soft
    ctx = mp.get_context("fork")
    procs, parts, errors = [], [], []
    for k in range(n):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=worker, args=(prop, tier, seed, k, n, deadline, with_g, b))
        p.start()
        b.close()
        procs.append((p, a))
    for p, a in procs:
        left = max(1.0, t0 + hard - time.time())
        try:
            msg = a.recv() if a.poll(left) else None
        except EOFError:
            msg = None
        if msg is None:
            errors.append("worker died or timed out")
            p.kill()
        elif msg[0] == "ok":
            parts.append(msg[1])
        else:
            errors.append(msg[1])
            if msg[2] is not None:
                parts.append(msg[2])
        p.join(10)
        if p.is_alive():
            p.kill()
    tot = merge(parts)
    known = known_findings(prop)
    fresh = []
    for key in tot["findings"]:
        if key not in known:
            fresh.append(("finding", 0, "unlisted finding " + key, ""))
    violations = tot["violations"] + fresh
    rule = (mod.__doc__ or "").strip()
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": tot["evaluations"], "distinct_nontrivial": len(tot["distinct"]),
              "rule": rule, "samples": tot["samples"][:25], "judgements": tot["comparisons"],
              "observed_calls": dict(sorted(tot["calls"].items())),
              "observed": dict(sorted(tot["counters"].items())),
              "largest_deviation_over_tolerance": {k: float("%.3g" % v) for k, v in sorted(tot["maxdev"].items())},
              "seconds_per_section": {k: round(v, 2) for k, v in sorted(tot["section_s"].items())},
              "cases_not_run_for_time": tot["skipped_time"], "workers": n},
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for key, text in known.items():
        if key in tot["findings"]:
            print("KNOWN-FINDING: property={} {}".format(prop, text))
    if violations:
        rep = os.path.join(VERIF, "replay")
        os.makedirs(rep, exist_ok=True)
        for label, index, text, tb in violations[:3]:
            path = os.path.join(rep, "{}-{}-{}.json".format(prop, label, index))
            with open(path, "w") as f:
                json.dump({"property": prop, "case": label, "index": index, "seed": seed, "tier": tier,
                           "message": text, "traceback": tb}, f, indent=1)
            print("[{} case {} #{}] {}".format(prop, label, index, text))
            if tb:
                print("\n".join(tb.splitlines()[-6:]))
            print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    if errors:
        print("INCONCLUSIVE {}: {}".format(prop, errors[0]))
        return 2
    if tot["comparisons"] == 0 or not tot["distinct"] or not tot["evaluations"]:
        print("INCONCLUSIVE {}: nothing was observed".format(prop))
        return 2
    print("{}: held on {} cases ({} judgements, {} distinct situations) in {:.1f} s".format(
        prop, tot["evaluations"], tot["comparisons"], len(tot["distinct"]), time.time() - t0))
    return 0
