"""Harness core: deterministic cases, online monitors, forked workers, verdicts.

A *property module* (vp/props/<id>.py) exposes
    PROP      property id
    LEVEL     evidence level
    RULE      how cases are made and what makes one non-trivial
    SCENARIOS list of (name, weight, function(ctx))
    CASES     {'quick': n, 'thorough': n}
    REQUIRED  list of counter names that must be > 0 for a "held" verdict
Each case is a deterministic function of (property, seed, index).
"""
import hashlib
import json
import os
import random
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

HOME = os.environ.get("VP_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VP_REPO", "/repo")  # overridden only while developing, to try planted changes in scratch copies


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig = sig
        self.msg = msg


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The generated case is outside the property's domain (not counted)."""


class Ctx:
    """Per-case monitor state."""

    def __init__(self, prop, seed, index, tier, scenario):
        self.prop, self.seed, self.index = prop, seed, index
        self.tier, self.scenario = tier, scenario
        h = hashlib.sha256(f"{prop}|{seed}|{index}|{scenario}".encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        self.iseed = int.from_bytes(h[8:12], "big")
        self.counts = Counter()
        self.sigs = set()
        self.violations = []
        self.notes = {}
        self._tmp = None

    # ---- monitors
    def count(self, name, n=1):
        self.counts[name] += n

    def seen(self, *key):
        """Record a distinct observed behaviour / state."""
        self.sigs.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def note(self, **kw):
        for k, v in kw.items():
            s = repr(v)
            self.notes[k] = s if len(s) < 1500 else s[:1500] + "..."

    def fail(self, sig, msg):
        if len(self.violations) < 20:
            self.violations.append((sig, str(msg)[:3000]))

    def check(self, cond, sig, msg=""):
        self.counts["checks"] += 1
        self.counts["chk." + sig] += 1
        if not cond:
            self.fail(sig, msg() if callable(msg) else msg)
            return False
        return True

    def eq(self, got, want, sig, msg=""):
        return self.check(got == want, sig, lambda: f"{msg}: got {got!r} want {want!r}")

    def close(self, got, want, sig, msg="", rel=1e-7, abs_=1e-9):
        return self.check(isclose(got, want, rel, abs_), sig,
                          lambda: f"{msg}: got {got!r} want {want!r}")

    def raises(self, fn, exc, sig, msg=""):
        try:
            fn()
        except exc:
            self.counts["checks"] += 1
            self.counts["chk." + sig] += 1
            return True
        except Exception as e:  # wrong kind
            return self.check(False, sig, f"{msg}: raised {type(e).__name__}: {e}")
        return self.check(False, sig, f"{msg}: did not raise")

    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="vpcase_")
        return self._tmp

    def cleanup(self):
        if self._tmp:
            import shutil
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def isclose(a, b, rel=1e-7, abs_=1e-9):
    import math
    if a is None or b is None:
        return a is None and b is None
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return a == b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def deep_diff(a, b, rel=1e-9, abs_=1e-9, path="", out=None, limit=5):
    """List of (path, a, b) where two nested structures differ."""
    import numpy as np
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a = a.tolist() if isinstance(a, np.ndarray) else a
        b = b.tolist() if isinstance(b, np.ndarray) else b
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a.keys()):
            if k not in b:
                out.append((f"{path}/{k}", a[k], "<missing>"))
            else:
                deep_diff(a[k], b[k], rel, abs_, f"{path}/{k}", out, limit)
        for k in b:
            if k not in a:
                out.append((f"{path}/{k}", "<missing>", b[k]))
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            out.append((path + "#len", a, b))
        else:
            for i, (x, y) in enumerate(zip(a, b)):
                deep_diff(x, y, rel, abs_, f"{path}[{i}]", out, limit)
    elif isinstance(a, bool) or isinstance(b, bool):
        if a != b:
            out.append((path, a, b))
    elif isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if not isclose(a, b, rel, abs_):
            out.append((path, a, b))
    elif isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if a != b:
            out.append((path, a, b))
    else:
        try:
            same = bool(a == b)
        except Exception:
            same = repr(a) == repr(b)
        if not same:
            try:  # NaT etc.
                same = (a != a) and (b != b)
            except Exception:
                pass
        if not same:
            out.append((path, a, b))
    return out[:limit]


def _alarm(signum, frame):
    raise CaseTimeout()


def _is_repo_exc(tb):
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith(REPO + "/") for f in frames), frames


def scenario_for(mod, index, scenarios=None):
    sc = scenarios or mod.SCENARIOS
    total = sum(w for _, w, _ in sc)
    # deterministic interleaving of scenarios by weight
    order = getattr(mod, "_order", None)
    if order is None:
        order = []
        acc = [0.0] * len(sc)
        for _ in range(total):
            for i, (_, w, _) in enumerate(sc):
                acc[i] += w / total
            j = max(range(len(sc)), key=lambda i: acc[i])
            acc[j] -= 1
            order.append(j)
        mod._order = order
    return sc[order[index % total]]


def run_case(mod, seed, index, tier, timeout):
    import numpy as np
    name, _, fn = scenario_for(mod, index)
    ctx = Ctx(mod.PROP, seed, index, tier, name)
    random.seed(ctx.iseed)
    np.random.seed(ctx.iseed % (2**32))
    t0 = time.time()
    rec = {"i": index, "s": name, "status": "ok"}
    cwd = os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        fn(ctx)
    except CaseTimeout:
        rec["status"] = "timeout"
    except Skip:
        rec["status"] = "skip"
    except Violation as v:
        ctx.fail(v.sig, v.msg)
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        in_repo, frames = _is_repo_exc(e.__traceback__)
        tbtext = "".join(traceback.format_exception(e))[-3500:]
        if in_repo:
            last = [f for f in frames if f.filename.startswith(REPO + "/")][-1]
            ctx.fail(f"exception:{type(e).__name__}:{last.name}", tbtext)
        elif isinstance(e, (KeyError, TypeError, IndexError, AttributeError, ValueError, ZeroDivisionError)):
            # the code under test returned something the oracle cannot even read
            ctx.fail(f"malformed:{type(e).__name__}:{frames[-1].name}", tbtext)
        else:
            rec["status"] = "harness_error"
            rec["error"] = tbtext
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
        ctx.cleanup()
    rec["t"] = round(time.time() - t0, 4)
    rec["counts"] = dict(ctx.counts)
    rec["sigs"] = sorted(ctx.sigs)
    rec["notes"] = ctx.notes
    rec["viol"] = ctx.violations
    return rec


def worker(mod, seed, indices, tier, timeout, deadline, path):
    quiet()
    with open(path, "w") as fh:
        for i in indices:
            if time.time() > deadline:
                fh.write(json.dumps({"i": i, "status": "unrun"}) + "\n")
                continue
            fh.write(json.dumps({"start": i}) + "\n")
            fh.flush()
            rec = run_case(mod, seed, i, tier, timeout)
            fh.write(json.dumps(rec, default=repr) + "\n")
            fh.flush()


def quiet():
    """Silence stdout/stderr of the code under test inside workers."""
    if os.environ.get("VP_LOUD"):
        return
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)


def run_forked(mod, seed, indices, tier, timeout, deadline, nproc, workdir, tag):
    indices = list(indices)
    nproc = max(1, min(nproc, len(indices)))
    pids = {}
    for w in range(nproc):
        path = os.path.join(workdir, f"{tag}_{w}.jsonl")
        mine = indices[w::nproc]
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                worker(mod, seed, mine, tier, timeout, deadline, path)
                code = 0
            except BaseException:
                try:
                    with open(path + ".err", "w") as f:
                        f.write(traceback.format_exc())
                except Exception:
                    pass
            finally:
                os._exit(code)
        pids[pid] = (path, mine)
    recs, crashed = {}, []
    hard = deadline + timeout + 60
    for pid, (path, mine) in pids.items():
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > hard:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                break
            time.sleep(0.02)
        started = None
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "start" in d:
                        started = d["start"]
                    else:
                        recs[d["i"]] = d
                        started = None
        if started is not None:
            crashed.append(started)
        rest = [i for i in mine if i not in recs and i not in crashed]
        for i in rest:
            recs[i] = {"i": i, "status": "unrun"}
    return recs, crashed
