"""Runs the sub-properties of one check with Hypothesis, records evidence, reports.

A check module (vlib/checks/<id>.py) defines ``SUBS``: a list of ``Sub``.  A ``Sub`` has a
strategy producing a JSON-able case and ``body(case, rec)``, which raises ``Violation`` when
the property is broken on that case.  Bodies are plain functions: a replay file is run
through the same body without Hypothesis.
"""
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import env


class Violation(AssertionError):
    pass


class HangError(Exception):
    pass


class Sub:
    def __init__(self, name, strategy, body, quick, thorough, rule, shards=1, case_timeout=100):
        self.name, self.strategy, self.body = name, strategy, body
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.shards, self.case_timeout = shards, case_timeout


class Rec:
    """What a body tells the runner about the case it ran."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nt(self, cond=True):
        self.nontrivial = self.nontrivial or bool(cond)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def expect_raises(exc_types, fn, what):
    """fn() must raise one of exc_types; returns the exception."""
    try:
        fn()
    except exc_types as e:
        return e
    raise Violation("%s was accepted; an error was expected" % what)


def _repo_frames(exc):
    src = os.path.join(env.REPO, "src") + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(src):
            return True
        tb = tb.tb_next
    c = exc.__cause__ or exc.__context__
    return _repo_frames(c) if c is not None and c is not exc else False


class _Silence:
    """Redirect fd-level and Python-level stdout of the code under test to nowhere."""

    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout = self.o


def _alarm(sig, frm):
    raise HangError("the case did not end in time")


def run_case(sub, case, rec):
    """Run one case.  Returns None when the property held, else a message.
    Raises for a harness error."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(sub.case_timeout)
    try:
        with _Silence():
            sub.body(case, rec)
        return None
    except Violation as e:
        return str(e) or "violated"
    except HangError:
        return "the operation did not end within %d s (a typical case takes well below 2 s)" % sub.case_timeout
    except Exception as e:  # noqa
        if _repo_frames(e):
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(env.REPO)]
            loc = "%s:%d" % (os.path.relpath(where[-1].filename, env.REPO), where[-1].lineno) if where else "?"
            return "a valid use raised %s: %s (at %s)" % (type(e).__name__, str(e)[:300].replace("\n", " "), loc)
        if isinstance(e, (TypeError, ValueError, AttributeError, LookupError, ArithmeticError, AssertionError)):
            # what the code returned does not even have the form that is examined
            ln = traceback.extract_tb(e.__traceback__)[-1]
            return "the outcome cannot be examined: %s: %s (%s:%d: %s)" % (type(e).__name__, str(e)[:200], os.path.basename(ln.filename), ln.lineno, ln.line)
        raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class _Fail(Exception):
    pass


def _key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


def run_shard(args):
    modname, subname, seed, n, deadline = args
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    from hypothesis.errors import Flaky
    mod = importlib.import_module(modname)
    sub = [s for s in mod.SUBS if s.name == subname][0]
    out = {"sub": subname, "evals": 0, "nt": set(), "labels": {}, "samples": [], "fail": None,
           "error": None, "truncated": False, "secs": 0.0}
    last = {}
    t0 = time.time()

    def wrapper(case):
        if time.time() > deadline:
            out["truncated"] = True
            return
        rec = Rec()
        msg = run_case(sub, case, rec)
        if not last:
            out["evals"] += 1
            for lb in set(rec.labels):
                out["labels"][lb] = out["labels"].get(lb, 0) + 1
            if rec.nontrivial:
                k = _key(case)
                if k not in out["nt"]:
                    out["nt"].add(k)
                    if len(out["samples"]) < 2:
                        out["samples"].append({"sub": subname, "case": case, "labels": sorted(set(rec.labels))})
        if msg is not None:
            last["case"], last["msg"] = case, msg
            raise _Fail(msg)

    test = hypothesis.given(sub.strategy())(wrapper)
    test = hypothesis.seed(seed)(test)
    test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                    print_blob=False, suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink))(test)
    try:
        with _StderrToNull():
            test()
    except (_Fail, Flaky):
        out["fail"] = last
    except BaseException as e:  # noqa
        if last:
            out["fail"] = last
        elif isinstance(e, Exception) and _repo_frames(e):
            out["fail"] = {"case": None, "msg": "while generating: %r" % e}
        else:
            out["error"] = traceback.format_exc()
    out["secs"] = time.time() - t0
    out["nt"] = sorted(out["nt"])
    return out


class _StderrToNull:
    def __enter__(self):
        self.o = sys.stderr
        sys.stderr = io.StringIO()

    def __exit__(self, *a):
        sys.stderr = self.o


def _violation(pid, sub, case, msg, extra=None):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s_%s_%s.json" % (pid, sub, _key([sub, case])))
    with open(p, "w") as f:
        json.dump({"property": pid, "sub": sub, "case": case, "message": msg, **(extra or {})}, f, indent=1)
    print("  [%s/%s] %s" % (pid, sub, msg))
    print("  case: %s" % json.dumps(case)[:1500])
    print("VIOLATION property=%s replay=%s" % (pid, p))


def known_findings(pid):
    p = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def main(pid, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    if "--replay" in argv:
        argv[argv.index("--replay") + 1] = os.path.abspath(argv[argv.index("--replay") + 1])
    env.bootstrap()
    modname = "vlib.checks." + pid.lower()
    try:
        with _Silence():
            mod = importlib.import_module(modname)
    except BaseException as e:  # noqa
        if isinstance(e, Exception) and _repo_frames(e):
            _violation(pid, "import", None, "the code cannot be imported: %r" % e)
            write_evidence(pid, tier, seed, None, [], t0, 1)
            return 1
        traceback.print_exc()
        return 2

    if "--replay" in argv:
        r = json.load(open(argv[argv.index("--replay") + 1]))
        sub = [s for s in mod.SUBS if s.name == r["sub"]][0]
        msg = run_case(sub, r["case"], Rec())
        if msg:
            _violation(pid, sub.name, r["case"], msg)
            return 1
        print("replay: the property held on this case")
        return 0

    only = None
    if "--sub" in argv:
        only = argv[argv.index("--sub") + 1]
    budget = float(os.environ.get("VERIF_BUDGET", "400" if tier == "quick" else "3000"))
    deadline = t0 + budget
    scale = float(os.environ.get("VERIF_SCALE", "3" if tier == "quick" else "2"))
    jobs = []
    for s in mod.SUBS:
        if only and s.name != only:
            continue
        if not (s.quick if tier == "quick" else s.thorough):
            continue  # (serves the replay of a known finding only)
        n = int((s.quick if tier == "quick" else s.thorough) * scale) or 1
        shards = s.shards if tier == "quick" else max(s.shards, 6)
        shards = max(1, min(shards, n // 5 or 1))
        for i in range(shards):
            sd = int.from_bytes(hashlib.blake2b(("%d/%s/%s/%d" % (seed, pid, s.name, i)).encode(), digest_size=6).digest(), "big")
            jobs.append((modname, s.name, sd, -(-n // shards), deadline))
    results = []
    nproc = min(len(jobs), int(os.environ.get("VERIF_JOBS", "7")))
    ctx = mp.get_context("fork")
    sys.stdout.flush()
    with ctx.Pool(nproc, maxtasksperchild=1) as pool:
        for r in pool.imap(run_shard, jobs, chunksize=1):
            results.append(r)
    errors = [r for r in results if r["error"]]
    fails = {}
    for r in results:
        if r["fail"] and r["sub"] not in fails:
            fails[r["sub"]] = r["fail"]

    for k in known_findings(pid):
        if k.get("status") != "open":
            continue
        sub = [s for s in mod.SUBS if s.name == k["sub"]][0]
        msg = run_case(sub, k["case"], Rec())
        if msg:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    write_evidence(pid, tier, seed, mod, results, t0, len(fails))
    for r in errors:
        err = r["error"].split("Failing test case")[0]
        print("HARNESS ERROR in %s/%s\n%s" % (pid, r["sub"], err[-2500:]), file=sys.stderr)
    for sname, f in fails.items():
        _violation(pid, sname, f["case"], f["msg"], {"seed": seed, "tier": tier})
    if fails:
        return 1
    if errors:
        return 2
    tot = sum(r["evals"] for r in results)
    nt = sum(len(set(sum((x["nt"] for x in results if x["sub"] == s.name), []))) for s in mod.SUBS)
    print("OK property=%s cases=%d nontrivial=%d wall=%.1fs" % (pid, tot, nt, time.time() - t0))
    return 0


def write_evidence(pid, tier, seed, mod, results, t0, nviol):
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    subs = {}
    samples = []
    evals = nt = 0
    trunc = False
    rules = []
    if mod is not None:
        for s in mod.SUBS:
            rs = [r for r in results if r["sub"] == s.name]
            if not rs:
                continue
            keys = set()
            labels = {}
            for r in rs:
                keys.update(r["nt"])
                for k, v in r["labels"].items():
                    labels[k] = labels.get(k, 0) + v
                trunc = trunc or r["truncated"]
            e = sum(r["evals"] for r in rs)
            subs[s.name] = {"evaluations": e, "distinct_nontrivial": len(keys),
                            "labels": dict(sorted(labels.items())), "seconds": round(sum(r["secs"] for r in rs), 2)}
            evals += e
            nt += len(keys)
            samples += rs[0]["samples"][:2]
            rules.append("%s: %s" % (s.name, s.rule))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": nt,
                       "rule": " | ".join(rules) or "the code could not be imported",
                       "samples": samples or [{"note": "none"}], "subproperties": subs,
                       "stopped_by_time_guard": trunc},
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
