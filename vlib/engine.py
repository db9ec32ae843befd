"""Generated-case engine: runs sub-checks under Hypothesis, shrinks, reports.

A sub-check is a Hypothesis strategy producing a JSON-able *case* and a
function ``run(case, tmp)`` which executes the code under test and compares it
with the oracle.  ``run`` raises ``Violation`` when the property fails, and
returns either a bool (non-trivial or not) or a dict with key ``nontrivial``
and optional ``tags`` for classification counts.
"""
import errno
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

from . import env


class Violation(AssertionError):
    pass


class Known(Exception):
    """The case hits a listed known finding (key) and nothing else."""
    def __init__(self, key, info=True):
        self.key, self.info = key, info


class Skip(Exception):
    """Generated case is outside the property's domain."""


class _Stop(BaseException):
    pass


class HarnessError(Exception):
    pass


class Sub:
    def __init__(self, name, strategy, run, quick=100, thorough=2000,
                 rule="", shards=1, tshards=8, scratch=False):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.shards, self.tshards, self.scratch = shards, tshards, scratch


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def summarise(v, depth=0):
    if isinstance(v, dict):
        return {k: summarise(x, depth + 1) for k, x in v.items()}
    if isinstance(v, list):
        if len(v) > 12:
            return [summarise(x, depth + 1) for x in v[:10]] + \
                [f"... {len(v)} items"]
        return [summarise(x, depth + 1) for x in v]
    return v


HARD_ERRORS = (MemoryError, ImportError)


def execute(sub, case, base=None):
    """Runs one case with isolated package state. Returns (outcome, info)."""
    env.restore_state()
    from mpi4py import MPI
    MPI.COMM_WORLD._install(MPI.Comm())
    # code under test may call np.random or random
    import numpy as np
    np.random.seed(0)
    random_state = random.getstate()
    try:
        with env.Scratch(base) as tmp:
            return "ok", sub.run(case, tmp)
    except Violation as e:
        return "violation", str(e)
    except Known as e:
        return "known", (e.key, e.info)
    except Skip:
        return "skip", None
    except HARD_ERRORS:
        raise
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM,
                       errno.EAGAIN, errno.ENFILE):
            raise
        return "violation", "unexpected error: " + _tb(e)
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        return "violation", "unexpected error: " + _tb(e)
    finally:
        random.setstate(random_state)
        MPI.COMM_WORLD._install(MPI.Comm())


def _tb(e):
    frames = traceback.extract_tb(e.__traceback__)
    loc = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}"
                      for f in frames[::-1][:5])
    return f"{type(e).__name__}: {str(e)[:400]} at {loc}"


def run_task(prop, sub, n, seed, budget_s, shrink_s, status_path, base):
    """Generate and run up to n cases. Returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    res = dict(sub=sub.name, evaluations=0, nontrivial=set(), tags={},
               samples=[], failure=None, known={}, truncated=False,
               skipped=0, invalid=0)
    t0 = time.time()
    first_fail = [None]
    best = [None]          # (size, case, message)

    def test(case):
        now = time.time()
        if first_fail[0] is None and now - t0 > budget_s:
            res["truncated"] = True
            raise _Stop()
        if first_fail[0] is not None and now - first_fail[0] > shrink_s:
            raise _Stop()
        c = canon(case)
        case = json.loads(c)        # runs exactly what a replay would run
        with open(status_path, "w") as f:
            f.write(c)
        out, info = execute(sub, case, base)
        if first_fail[0] is None:
            res["evaluations"] += 1
        if out == "skip":
            res["skipped"] += 1
            hypothesis.reject()
        if out == "known":
            key, info = info
            res["known"].setdefault(key, "")
        if out == "violation":
            if first_fail[0] is None:
                first_fail[0] = time.time()
            if best[0] is None or len(c) <= best[0][0]:
                best[0] = (len(c), case, info)
            raise Violation(info)
        if first_fail[0] is None:
            nt = info
            if isinstance(info, dict):
                nt = info.get("nontrivial", True)
                for t in info.get("tags", ()):
                    res["tags"][t] = res["tags"].get(t, 0) + 1
            if nt:
                h = hashlib.sha1(c.encode()).hexdigest()[:16]
                if h not in res["nontrivial"]:
                    res["nontrivial"].add(h)
                    if len(res["samples"]) < 2:
                        res["samples"].append(summarise(case))

    wrapped = hypothesis.given(sub.strategy())(test)
    wrapped = settings(
        max_examples=n, database=None, deadline=None, print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        verbosity=hypothesis.Verbosity.quiet)(wrapped)
    wrapped = hypothesis.seed(seed)(wrapped)
    try:
        wrapped()
    except _Stop:
        pass
    except Violation:
        pass
    except hypothesis.errors.Flaky as e:
        if best[0] is None:
            raise HarnessError("flaky: " + str(e))
    except BaseExceptionGroup as e:
        if best[0] is None:
            raise HarnessError("group: " + str(e))
    if best[0] is not None:
        res["failure"] = dict(case=best[0][1], message=best[0][2])
    res["nontrivial"] = sorted(res["nontrivial"])
    res["wall"] = time.time() - t0
    return res


def derive_seed(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big") & 0x7FFFFFFF


QUICK_FACTOR = dict(C17=3, C18=2, C19=3, C20=2.5, C21=1.5, C22=3, C24=3)


def run_property(prop, subs, tier, seed, ncpu=8, only=None, scale=1.0,
                 case_limit=300.0):
    """Runs all tasks in forked workers. Returns merged results."""
    import tempfile
    import shutil
    from . import simmpi
    scratch = tempfile.mkdtemp(prefix=f"vp-{prop}-")
    quick = tier == "quick"
    budget = 150.0 if quick else 1500.0
    shrink = 25.0 if quick else 120.0
    tasks = []
    for sub in subs:
        if only and sub.name not in only:
            continue
        n = sub.quick if quick else sub.thorough
        n = max(1, int(n * scale))
        k = sub.shards if quick else sub.tshards
        if quick:
            # what each declared count is worth within a minute on 8 cores
            f = QUICK_FACTOR.get(prop, 4)
            n, k = int(n * f), min(8, int(-(-k * f // 2)))
        k = max(1, min(k, n))
        for i in range(k):
            tasks.append((sub, -(-n // k),
                          derive_seed(seed, prop, sub.name, i, tier), i))
    # long tasks first is not known a priori; keep declared order
    results, errors, hung = [], [], []
    running = {}
    queue = list(enumerate(tasks))
    stop = False
    try:
        while queue or running:
            while queue and len(running) < ncpu and not stop:
                tid, (sub, n, s, sh) = queue.pop(0)
                out = os.path.join(scratch, f"r{tid}.json")
                status = os.path.join(scratch, f"s{tid}.json")
                wdir = os.path.join(scratch, f"w{tid}")
                os.mkdir(wdir)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = simmpi.fork_retry()
                if pid == 0:
                    code = 0
                    try:
                        os.setpgid(0, 0)
                        devnull = os.open(os.devnull, os.O_RDWR)
                        os.dup2(devnull, 1)
                        if not os.environ.get("VP_DEBUG"):
                            os.dup2(devnull, 2)
                        r = run_task(prop, sub, n, s, budget, shrink,
                                     status, wdir)
                        with open(out + ".tmp", "w") as f:
                            json.dump(r, f)
                        os.rename(out + ".tmp", out)
                    except BaseException:
                        code = 3
                        with open(out + ".err", "w") as f:
                            f.write(traceback.format_exc())
                    finally:
                        os._exit(code)
                running[pid] = (tid, sub, out, status, wdir)
            if stop:
                queue = []
            if not running:
                break
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (tid, sub, out, status, wdir) in list(running.items()):
                    try:
                        age = now - os.stat(status).st_mtime
                    except OSError:
                        continue
                    if age > case_limit:
                        _killpg(p)
                        os.waitpid(p, 0)
                        del running[p]
                        try:
                            case = json.load(open(status))
                        except Exception:
                            case = None
                        hung.append((sub.name, case, age))
                        stop = True
                time.sleep(0.02)
                continue
            if pid not in running:
                continue
            tid, sub, out, status, wdir = running.pop(pid)
            _killpg(pid)
            shutil.rmtree(wdir, ignore_errors=True)
            if os.path.exists(out):
                r = json.load(open(out))
                results.append(r)
                if r["failure"] and quick:
                    stop = True
            else:
                msg = f"worker for {sub.name} ended with status {st}"
                try:
                    msg += "\n" + open(out + ".err").read()
                except OSError:
                    pass
                errors.append(msg)
    finally:
        for p in list(running):
            _killpg(p)
        shutil.rmtree(scratch, ignore_errors=True)
    return results, errors, hung


def _killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
