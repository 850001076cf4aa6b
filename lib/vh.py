"""Shared harness of the runtime monitors in /verif/checks.

A check builds a `Check`, drives the real code of the repository under generated workloads, and
reports what its oracles observed through `expect`/`violate`.  Verdicts are three-valued:
  exit 0  every oracle was reached and stayed silent (or only listed known findings fired)
  exit 1  a `VIOLATION property=<id> replay=<path>` line was printed
  exit 3  inconclusive: harness error, or an oracle that must be reached was never reached
"""
import contextlib
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Inconclusive(Exception):
    pass


class StopCheck(Exception):
    """Raised to stop the workload after enough violations were seen."""


def _plain(x, depth=0):
    if isinstance(x, np.ndarray):
        return x.tolist() if x.size <= 64 else {"shape": list(x.shape), "head": x.ravel()[:24].tolist()}
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): _plain(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [_plain(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


def _load_known(pid):
    keys = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" ", 1)
                assert key.startswith("key="), line
                keys[key[4:]] = text
    return keys


class Check:
    MAX_VIOLATIONS = 12

    def __init__(self, pid, rule, level="exploration", cap_s=None):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.cap_s = cap_s or (3000 if self.thorough else 420)
        self.oracles = {}      # oracle name -> number of times it was evaluated
        self.events = {}       # event name -> count
        self.distinct = set()  # hashes of distinct non-trivial cases
        self.evaluations = 0
        self.samples = []
        self.violations = []
        self.violation_count = 0
        self.known_hit = {}
        self.known = _load_known(pid)
        self.required = {}
        self.assumptions = []
        self.case_desc = None
        self.worst = {}
        self.stopped_early = False
        np.seterr(all="ignore")

    # ------------------------------------------------------------- randomness / scale
    def rng(self, *names):
        h = hashlib.sha256(("%d/%s/" % (self.seed, self.pid) + "/".join(map(str, names))).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], "little"))

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    def time_left(self):
        return self.cap_s - (time.time() - self.t0)

    # ------------------------------------------------------------- reporting
    def event(self, name, k=1):
        self.events[name] = self.events.get(name, 0) + int(k)

    def require(self, **minimum):
        """Oracles/events that must have been reached at least this often, or the run is inconclusive."""
        self.required.update(minimum)

    def case(self, desc, nontrivial=True):
        self.evaluations += 1
        self.case_desc = desc
        if nontrivial:
            self.distinct.add(hashlib.sha1(json.dumps(_plain(desc), sort_keys=True).encode()).hexdigest()[:16])
        if len(self.samples) < 6 or (self.evaluations % 997 == 0 and len(self.samples) < 12):
            self.samples.append(_plain(desc))

    def expect(self, cond, mech, msg="", **data):
        self.oracles[mech] = self.oracles.get(mech, 0) + 1
        if not bool(cond):
            self.violate(mech, msg, **data)
            return False
        return True

    def close(self, got, want, mech, msg="", tol=1e-9, scale=1.0, **data):
        """|got-want| <= tol*(scale + max|want|), NaN counts as a violation."""
        self.oracles[mech] = self.oracles.get(mech, 0) + 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            self.violate(mech, msg + " (not numeric)", got=got, want=want, **data)
            return False
        if g.shape != w.shape:
            if g.size == w.size and g.size == 1:
                g = g.reshape(w.shape)
            else:
                self.violate(mech, msg + " (shape %s instead of %s)" % (g.shape, w.shape), got=g, want=w, **data)
                return False
        if g.size == 0:
            return True
        mag = scale + float(np.max(np.abs(w))) if np.all(np.isfinite(w)) else scale
        err = np.max(np.abs(g - w)) if np.all(np.isfinite(g)) else np.inf
        rel = float(err / mag)
        if rel > self.worst.get(mech, (-1, 0))[0]:
            self.worst[mech] = (rel, tol)
        if not rel <= tol:
            self.violate(mech, msg, got=g, want=w, err=float(err), tol=tol * mag, **data)
            return False
        return True

    def violate(self, mech, msg="", **data):
        if mech in self.known:
            self.known_hit[mech] = self.known_hit.get(mech, 0) + 1
            return
        self.violation_count += 1
        mine = [v for v in self.violations if v["mechanism"] == mech]
        if mine:
            mine[0]["times"] += 1
        else:
            self.violations.append(dict(mechanism=mech, times=1, message=msg, case=_plain(self.case_desc), data=_plain(data)))
        if len(self.violations) >= self.MAX_VIOLATIONS or self.violation_count >= 60:
            raise StopCheck()

    @contextlib.contextmanager
    def guard(self, mech, msg="the repository raised on a legal input"):
        """An exception coming out of repository code is a violation, one of the harness is not."""
        try:
            yield
        except (StopCheck, Inconclusive):
            raise
        except Exception as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            in_repo = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
            if not in_repo:
                raise
            self.oracles[mech] = self.oracles.get(mech, 0) + 1
            self.violate(mech, "%s: %s: %s" % (msg, type(e).__name__, e),
                         where=["%s:%d %s" % (os.path.relpath(f.filename, REPO), f.lineno, f.name) for f in in_repo[-4:]])

    def expect_error(self, fn, mech, msg="", **data):
        """fn() must raise (any Exception)."""
        self.oracles[mech] = self.oracles.get(mech, 0) + 1
        try:
            r = fn()
        except (StopCheck, Inconclusive):
            raise
        except Exception as e:  # noqa
            return e
        self.violate(mech, msg, returned=r, **data)
        return None

    # ------------------------------------------------------------- running
    def run(self, *workloads):
        code = 0
        why = ""
        try:
            with self._watchdog():
                for w in workloads:
                    w(self)
        except StopCheck:
            self.stopped_early = True
        except Inconclusive as e:
            code, why = 3, str(e)
        except Exception:  # noqa
            traceback.print_exc()
            code, why = 3, "harness error"
        if self.violations:
            code = 1
        elif code == 0:
            for name, k in self.required.items():
                have = self.oracles.get(name, 0) + self.events.get(name, 0)
                if have < k:
                    code, why = 3, "%s reached %d < %d times" % (name, have, k)
            if not self.oracles:
                code, why = 3, "no oracle was evaluated"
        self._write(code)
        for m in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s [%s, %d times]" % (self.pid, self.known[m], m, self.known_hit[m]))
        print("%s %s seed=%d evaluations=%d distinct=%d oracles=%d wall=%.1fs" % (
            self.pid, self.tier, self.seed, self.evaluations, len(self.distinct), sum(self.oracles.values()),
            time.time() - self.t0))
        if code == 3:
            print("INCONCLUSIVE %s: %s" % (self.pid, why))
        if os.environ.get("VERIF_VERBOSE"):
            for k, v in sorted(self.worst.items()):
                print("   worst %-40s %.3g (tol %.1g)" % (k, v[0], v[1]))
            print("   oracles", self.oracles)
            print("   events", self.events)
        if code == 1:
            path = os.path.join("evidence", "replay-%s.json" % self.pid)
            with open(os.path.join(VERIF, path), "w") as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier,
                               replay="VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s" % (self.seed, self.tier, self.pid),
                               violations=self.violations), f, indent=1, default=str)
            for v in self.violations:
                print("  - %s (x%d): %s" % (v["mechanism"], v["times"], v["message"]))
                print("      case %s" % json.dumps(v["case"])[:400])
                print("      data %s" % json.dumps(v["data"], default=str)[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        sys.stdout.flush()
        os._exit(code)

    @contextlib.contextmanager
    def _watchdog(self):
        limit = int(self.cap_s * 2)
        if not self.thorough:
            limit = min(limit, 840)

        def fire(signum, frame):
            raise Inconclusive("watchdog after %d s" % limit)

        signal.signal(signal.SIGALRM, fire)
        signal.alarm(limit)
        try:
            yield
        finally:
            signal.alarm(0)

    def _write(self, code):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                                samples=self.samples or ["none"], oracle_evaluations=self.oracles,
                                events=self.events, known_findings_hit=self.known_hit,
                                worst_relative_error={k: [v[0], v[1]] for k, v in self.worst.items() if np.isfinite(v[0])}),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3),
                  violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", "%s.json" % self.pid), "w") as f:
            json.dump(ev, f, indent=1, default=str)


@contextlib.contextmanager
def quiet():
    """Silence the repository's prints (progress dots and the like)."""
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def small_hash_tables():
    """The soft engine's spatial hash fills an 8 GB table with random hash codes when it is created.
    During construction only, huge requests get a small table broadcast to the requested shape: the
    hash codes are a don't-care of every property here (any table is legal)."""
    real = np.random.randint

    def randint(low, high=None, size=None, dtype=int):
        try:
            total = int(np.prod(size)) if size is not None else 1
        except Exception:  # noqa
            total = 1
        if total > 50_000_000 and len(size) == 3:
            small = real(low, high, size=(64, 64, 64), dtype=dtype)
            return _Wrapped(small, size)
        return real(low, high, size=size, dtype=dtype)

    np.random.randint = randint
    try:
        yield
    finally:
        np.random.randint = real


class _Wrapped:
    """Read-only table of the requested shape backed by a small random one."""

    def __init__(self, small, shape):
        self.small = small
        self.shape = tuple(shape)

    def __getitem__(self, idx):
        idx = tuple(int(i) for i in idx)
        for i, s in zip(idx, self.shape):
            if not -s <= i < s:
                raise IndexError(idx)
        return self.small[tuple((i % s) % 64 for i, s in zip(idx, self.shape))]
