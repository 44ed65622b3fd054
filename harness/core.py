"""Runner for the property-based checks of cr-sparse.

A *property* (C01, C02, ...) is decided by one or more *subs*.  A sub is a
Hypothesis strategy producing a plain JSON-able dict (the case) and a function
that drives the real code from /repo with that case and compares it with an
oracle.  Everything random is inside the strategy; the function is a pure
function of the case, so a shrunk case is a complete replay file.

A failure counts only after it failed again in a fresh process: alone, or after
the cases that ran before it (then the replay file holds that history).  The
XLA CPU compiler in jaxlib 0.4.18 sometimes (about 1 compilation in 130, by a
hash salted per process) merges two copies of one closed-over matrix that have
different memory layouts; such a failure never survives a second process.

One check = one parent process that runs every sub of the property in its own
worker process (at most 8 at a time), collects counts, samples and shrunk
failures, handles the committed known findings and writes the evidence file.
"""
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")

HANG_S = 240.0          # one generated case normally takes well under 5 s
BUDGET_S = {"quick": 640.0, "thorough": 830.0}
SHRINK_S = 40
CONFIRM_S = 200
SHARDS = {"quick": 1, "thorough": 4}
MULT = {"quick": 1, "thorough": 3}

PROPS = {}              # id -> list of Sub, filled by importing props/<id>.py


class Fail(AssertionError):
    """The code under test broke the property on this case."""


class History(BaseException):
    """The case fails only after earlier cases of the same process: stop without shrinking."""


class Sub:
    def __init__(self, prop, name, gen, fn, n, x64, rule, hang):
        self.prop, self.name, self.gen, self.fn = prop, name, gen, fn
        self.n, self.x64, self.rule, self.hang = n, x64, rule, hang


def sub(prop, name, gen, n, rule, x64=True, hang=True):
    """Register fn(case) -> bool (was this case non-trivial?) as a sub of prop.

    hang=True: the property includes termination, so a case that runs for
    HANG_S seconds is a violation.
    """
    def deco(fn):
        PROPS.setdefault(prop, []).append(Sub(prop, name, gen, fn, n, x64, rule, hang))
        return fn
    return deco


def require(cond, msg, **info):
    if not cond:
        extra = "".join(f" {k}={_short(v)}" for k, v in info.items())
        raise Fail(msg + extra)


def _short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def load(prop):
    sys.path.insert(0, VERIF)
    importlib.import_module(f"harness.props.{prop.lower()}")
    return PROPS[prop]


# ---------------------------------------------------------------- worker ---

def worker(prop, name, seed, tier, shard, out):
    """Run one sub; write {status, evaluations, ...} to `out`."""
    res = {"sub": name, "shard": shard, "status": "error", "evaluations": 0,
           "nontrivial": [], "samples": [], "labels": {}}
    beat = out + ".beat"

    def save():
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f, default=str)
        os.replace(tmp, out)

    try:
        subs = load(prop)
        s = next(x for x in subs if x.name == name)
        import jax
        jax.config.update("jax_enable_x64", bool(s.x64))
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        import hypothesis.internal.conjecture.engine as engine
        import hypothesis.internal.conjecture.providers as providers
        engine.MAX_SHRINKING_SECONDS = SHRINK_S
        # by default five of six cases are a drawn case with one part copied over another; the
        # inputs here are short lists of choices, so fresh draws cover far more combinations
        mutate = engine.ConjectureRunner.generate_mutations_from
        engine.ConjectureRunner.generate_mutations_from = (
            lambda self, data: mutate(self, data) if self.call_count % 41 == 40 else None)
        # generation must not depend on literals found in the code under test
        if hasattr(providers, "_get_local_constants"):
            from hypothesis.internal.constants_ast import Constants
            empty = Constants()
            providers._get_local_constants = lambda: empty
    except BaseException:
        res["status"], res["message"] = "error", traceback.format_exc()
        save()
        return 2

    t0 = time.time()
    n = s.n * MULT[tier]
    sd = zlib.crc32(f"{seed}/{prop}/{name}/{shard}".encode())
    state = {"failing": None, "msg": None}
    seen = set()
    history = []

    def confirmed(case):
        """None, or the list of earlier cases needed for `case` to fail in a fresh process."""
        k = len(history)
        for pre in sorted({0, min(2, k), min(12, k), k}):
            prefix = history[k - pre:]
            path = out + ".confirm"
            with open(path, "w") as f:
                json.dump({"property": prop, "sub": name, "case": case, "prefix": prefix}, f)
            with open(beat, "w") as f:
                f.write(json.dumps({"t": time.time() + CONFIRM_S, "case": case}))
            try:
                q = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", path],
                                   capture_output=True, text=True, timeout=CONFIRM_S)
            except subprocess.TimeoutExpired:
                return prefix if pre == 0 else None
            if q.returncode != 0:
                return prefix
        return None

    def run(case):
        blob = json.dumps(case, sort_keys=True)
        with open(beat, "w") as f:
            f.write(json.dumps({"t": time.time(), "case": case}))
        shrinking = state["failing"] is not None
        try:
            nontrivial = s.fn(json.loads(blob))
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:
            if isinstance(e, Fail):
                msg = str(e)
            else:
                msg = "".join(traceback.format_exception(e)[-6:])
            if not shrinking:
                prefix = confirmed(case)
                if prefix is None:
                    res["unconfirmed"] = res.get("unconfirmed", []) + [{"case": case, "message": msg[:500]}]
                    return
                res.update(status="violation", case=case, message=msg)
                if prefix:
                    res.update(prefix=prefix)
                    raise History() from e
                save()
            state["failing"], state["msg"] = case, msg
            raise Fail(msg) from e
        if not shrinking:
            history.append(case)
            res["evaluations"] += 1
            if nontrivial:
                h = hashlib.sha1(blob.encode()).hexdigest()
                if h not in seen:
                    seen.add(h)
                    if len(res["samples"]) < 2 and len(blob) < 1500:
                        res["samples"].append(case)
            if isinstance(nontrivial, str):
                res["labels"][nontrivial] = res["labels"].get(nontrivial, 0) + 1

    test = hypothesis.seed(sd)(settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck))(given(s.gen)(lambda case: run(case))))
    import io
    import contextlib
    sink = io.StringIO()
    rc = 0
    try:
        # some library functions print progress; keep the check's output clean
        with contextlib.redirect_stdout(sink):
            test()
        res["status"] = "ok"
    except History:
        pass
    except BaseException as e:
        if state["failing"] is not None:
            # the last failing case is the shrunk one; keep it if it fails on its own in a fresh
            # process, and otherwise the first failure, which did
            case, msg = state["failing"], state["msg"]
            history.clear()
            if case != res["case"] and confirmed(case) is not None:
                res["case"], res["message"] = case, msg
            res["status"] = "violation"
        else:
            res["status"], res["message"] = "error", "".join(traceback.format_exception(e))
            rc = 2
    res["nontrivial"] = sorted(seen)
    res["seconds"] = round(time.time() - t0, 1)
    save()
    return rc


# ---------------------------------------------------------------- parent ---

def child_env(seed):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("JAX_") or k == "XLA_FLAGS":
            env.pop(k)
    env.update(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", TF_CPP_MIN_LOG_LEVEL="3",
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               NPROC="1", PYTHONWARNINGS="ignore",
               PYTHONPATH=os.pathsep.join([VERIF, os.path.join(VERIF, "vendor"), "/repo/src"]))
    return env


def known_findings(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop]


def replay(path):
    """Re-run one saved case without Hypothesis. Exit 1 if it still fails."""
    with open(path) as f:
        r = json.load(f)
    subs = load(r["property"])
    s = next(x for x in subs if x.name == r["sub"])
    import jax
    jax.config.update("jax_enable_x64", bool(s.x64))
    for case in r.get("prefix") or []:
        try:
            s.fn(case)
        except Exception:
            pass
    try:
        s.fn(r["case"])
    except Exception as e:
        if not isinstance(e, Fail):
            traceback.print_exc()
        print(f"REPRODUCED property={r['property']} sub={r['sub']}: {e}")
        return 1
    print("replay passes")
    return 0


def check(prop, tier, seed):
    t0 = time.time()
    subs = load(prop)
    scratch = tempfile.mkdtemp(prefix=f"crsparse-{prop}-")
    env = child_env(seed)
    env["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
    env["TMPDIR"] = scratch
    main = os.path.join(VERIF, "check.py")
    todo = []
    for sh in range(SHARDS[tier]):
        for s in subs:
            if s.n > 0:         # n = 0: only replayed for a recorded finding
                todo.append((s, sh))
    jobs_max = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    running, results, errors, notes = [], [], [], []
    violations = []

    def start(s, sh):
        out = os.path.join(scratch, f"{s.name}.{sh}.json")
        log = open(out + ".log", "w")
        p = subprocess.Popen(
            [sys.executable, main, "--worker", prop, s.name, "--seed", str(seed),
             "--tier", tier, "--shard", str(sh), "--out", out],
            env=env, cwd=scratch, stdout=log, stderr=subprocess.STDOUT,
            start_new_session=True)
        return {"p": p, "s": s, "sh": sh, "out": out, "log": log, "t": time.time()}

    def kill(j):
        try:
            os.killpg(j["p"].pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        j["p"].wait()

    def read(j):
        try:
            with open(j["out"]) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def hangs_again(s, case):
        path = os.path.join(scratch, "hang.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "sub": s.name, "case": case}, f)
        try:
            q = subprocess.run([sys.executable, main, "--replay", path], env=env, cwd=scratch,
                               capture_output=True, text=True, timeout=150)
            return q.returncode != 0
        except subprocess.TimeoutExpired:
            return True

    def collect(j, why=None):
        j["log"].close()
        r = read(j)
        s = j["s"]
        if why == "hang":
            with open(j["out"] + ".beat") as f:
                b = json.load(f)
            if r is not None and r["status"] == "violation":
                pass
            elif not hangs_again(s, b["case"]):
                notes.append(f"{s.name}/{j['sh']}: a case that hung, but not in a fresh process: {json.dumps(b['case'])[:300]}")
                return
            else:
                r = {"sub": s.name, "shard": j["sh"], "status": "violation", "evaluations": 0,
                     "nontrivial": [], "samples": [], "labels": {}, "case": b["case"],
                     "message": f"did not terminate within {HANG_S:.0f} s"}
        elif why == "budget" and (r is None or r["status"] == "error"):
            notes.append(f"{s.name}/{j['sh']}: stopped at the time budget")
            return
        if r is None:
            with open(j["out"] + ".log") as f:
                tail = f.read()[-3000:]
            rc = j["p"].returncode
            try:
                with open(j["out"] + ".beat") as f:
                    b = json.load(f)
            except (OSError, ValueError):
                b = None
            if b is not None and rc is not None and rc < 0 and rc != -signal.SIGKILL:
                # the interpreter died (segfault / abort) inside a generated case
                r = {"sub": s.name, "shard": j["sh"], "status": "violation", "evaluations": 0,
                     "nontrivial": [], "samples": [], "labels": {}, "case": b["case"],
                     "message": f"process died with signal {-rc} on this case"}
            else:
                errors.append(f"{s.name}: worker gave no result (rc={rc})\n{tail}")
                return
        results.append(r)
        if r["status"] == "error":
            errors.append(f"{s.name}: {r.get('message', '')}")
        elif r["status"] == "violation":
            violations.append(r)

    try:
        while todo or running:
            while todo and len(running) < jobs_max and time.time() - t0 < BUDGET_S[tier]:
                running.append(start(*todo.pop(0)))
            now = time.time()
            if now - t0 >= BUDGET_S[tier] and todo:
                notes.append(f"{len(todo)} sub runs not started: time budget")
                todo = []
            for j in list(running):
                if j["p"].poll() is not None:
                    running.remove(j)
                    collect(j)
                    continue
                if now - t0 > BUDGET_S[tier] + (200 if tier == "quick" else 60):
                    kill(j)
                    running.remove(j)
                    collect(j, "budget")
                    continue
                try:
                    with open(j["out"] + ".beat") as f:
                        b = json.load(f)
                    if j["s"].hang and now - b["t"] > HANG_S:
                        kill(j)
                        running.remove(j)
                        collect(j, "hang")
                except (OSError, ValueError):
                    pass
            time.sleep(0.05)

        # committed known findings: replay the exact recorded case
        known_lines = []
        for e in known_findings(prop):
            rp = os.path.join(scratch, "known.json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "sub": e["sub"], "case": e["case"]}, f)
            q = subprocess.run([sys.executable, main, "--replay", rp], env=env, cwd=scratch,
                               capture_output=True, text=True, timeout=300)
            if q.returncode == 1 and "REPRODUCED" in q.stdout:
                known_lines.append(f"KNOWN-FINDING: property={prop} {e['what']}")
    finally:
        for j in running:
            kill(j)
        subprocess.run(["rm", "-rf", "--", scratch])

    os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
    ids = set()
    for r in results:
        ids.update(f"{r['sub']}:{h}" for h in r["nontrivial"])
    per_sub, labels = {}, {}
    for r in results:
        for u in r.get("unconfirmed", []):
            notes.append(f"{r['sub']}: a failure that did not repeat in a fresh process: {u['message'][:200]} case={json.dumps(u['case'])[:300]}")
        d = per_sub.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0})
        d["evaluations"] += r["evaluations"]
        d["seconds"] = round(d.get("seconds", 0) + r.get("seconds", 0), 1)
        d["distinct_nontrivial"] = len({i for i in ids if i.startswith(r["sub"] + ":")})
        for k, v in r["labels"].items():
            d.setdefault("classes", {})
            d["classes"][k] = d["classes"].get(k, 0) + v
    samples = []
    for r in results:
        if r["shard"] == 0:
            samples.extend({"sub": r["sub"], "case": c} for c in r["samples"][:1])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(ids),
            "rule": " | ".join(f"{s.name}: {s.rule}" for s in subs),
            "samples": samples[:12],
            "per_sub": per_sub,
            "notes": notes,
        },
        "assumptions": ["jax/numpy/scipy, cr-nimble and cr-wavelets installed in /opt/venv are correct",
                        "oracles are evaluated in float64 numpy/scipy"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for ln in known_lines:
        print(ln)
    reported = set()
    for r in violations:
        if r["sub"] in reported:
            continue
        reported.add(r["sub"])
        path = os.path.join(EVIDENCE, "replays", f"{prop}_{r['sub']}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "sub": r["sub"], "case": r.get("case"), "prefix": r.get("prefix", []),
                       "message": r.get("message")}, f, indent=1)
        print(f"[{prop}/{r['sub']}] {str(r.get('message', ''))[:1500]}")
        print(f"  minimal case: {json.dumps(r.get('case'))[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    c = ev["coverage"]
    print(f"{prop} {tier} seed={seed}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct "
          f"non-trivial, {len(violations)} violation(s), {ev['wall_s']} s")
    for n in notes:
        print("note:", n)
    if violations:
        return 1
    if errors:
        for e in errors:
            print("HARNESS ERROR:", e[:3000], file=sys.stderr)
        return 2
    return 0
