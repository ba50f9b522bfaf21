"""Property-based checking harness (Hypothesis underneath).

A check module (checks/<ID>.py) defines

    PROPERTY = "C01"; LEVEL = "exploration"; RULE = "..."; ASSUMPTIONS = [...]
    FACETS = [Facet(name, strategy, run, quick=N, thorough=M), ...]

`strategy` yields JSON-serialisable cases; `run(case)` is a pure function of the
case and of the code under /repo: it raises `Violation` if the property is broken
and otherwise returns an info dict: {"nontrivial": bool, "labels": [str, ...]}.
"""
import json, os, sys, time, hashlib, traceback

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


CURFILE = None    # set in workers: where the case being run is noted, so that a hang is attributable


class Violation(Exception):
    pass


class Facet:
    def __init__(self, name, strategy, run, quick, thorough, shards=None, budget=1.0):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.shards, self.budget = quick, thorough, shards, budget


def info(nontrivial=True, *labels):
    return {"nontrivial": bool(nontrivial), "labels": list(labels)}


def fail(msg, **kw):
    raise Violation(msg + (" | " + ", ".join(f"{k}={v}" for k, v in kw.items()) if kw else ""))


def expect(cond, msg, **kw):
    if not cond:
        fail(msg, **kw)


def close(a, b, what, rtol=1e-9, atol=0.0, scale=None):
    """Assert |a-b| <= atol + rtol*scale, scale = max(|a|,|b|) over the whole array
    (a norm-wise comparison: no false alarm from round-off in cancelled entries)."""
    import numpy as np
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        fail(f"{what}: shape {a.shape} differs from the expected {b.shape}")
    if a.size == 0:
        return
    if not np.all(np.isfinite(a)):
        fail(f"{what}: non-finite value produced")
    if scale is None:
        scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
    d = np.abs(a - b)
    tol = atol + rtol * scale
    if not np.all(d <= tol):
        k = np.unravel_index(np.argmax(d), d.shape)
        fail(f"{what}: differs from the expected value", at=tuple(int(i) for i in k), got=float(a[k]),
             expected=float(b[k]), tol=float(tol), n_bad=int(np.sum(d > tol)), of=d.size)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def in_repo_traceback(tb):
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


class HarnessError(Exception):
    pass


def execute(facet, case):
    """Run one case. Returns info; raises Violation (incl. for exceptions escaping
    the code under test on this in-domain input) or HarnessError."""
    try:
        r = facet.run(case)
        return r if r is not None else info(True)
    except Violation:
        raise
    except MemoryError:
        return {"nontrivial": False, "labels": ["inconclusive:memory"]}
    except Exception as e:
        # (XLA hides frames of the code under test in the "filtered" traceback only;
        #  JAX_TRACEBACK_FILTERING=off is set by the launcher.)
        if in_repo_traceback(e.__traceback__):
            last = traceback.format_exception_only(type(e), e)[-1].strip()
            where = [f for f in traceback.extract_tb(e.__traceback__)
                     if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)][-1]
            raise Violation(f"the code raised on a valid input: {last[:300]} (at {os.path.relpath(where.filename, REPO)}:{where.name})") from e
        raise HarnessError("".join(traceback.format_exception(e))[-4000:]) from e


def seed_for(*parts):
    h = hashlib.sha256(":".join(str(x) for x in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def drive(prop, facet, seed, shard, n_cases, deadline, shrink_s, out):
    """Generate n_cases cases for one facet shard. `out` is a mutable record."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    rec = out.setdefault(facet.name, {"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "skipped": 0, "time": 0.0})
    state = {"fail": None, "failed": {}, "stop": None}

    def body(case):
        if shard and not state.get("begun"):      # Hypothesis opens with its minimal case: one shard runs it, the others skip it
            state["begun"] = True
            return
        key = canon(case)
        msg = state["failed"].get(key)
        if msg is None:
            msg = once(case, key)
        if msg is not None:
            raise Violation(msg)      # the only raising line: one origin for Hypothesis

    def once(case, key):
        now = time.time()
        if state["fail"] is not None and now > state["stop"]:
            return None
        if state["fail"] is None and now > deadline:
            rec["skipped"] += 1
            return None
        if CURFILE:
            with open(CURFILE, "w") as f:
                json.dump({"t": now, "facet": facet.name, "case": case}, f)
        try:
            r = execute(facet, case)
        except Violation as v:
            msg = str(v)
            state["failed"][key] = msg
            if state["fail"] is None:
                state["stop"] = time.time() + shrink_s
            state["fail"] = (case, msg)
            return msg
        finally:
            rec["time"] += time.time() - now
        if state["fail"] is None:
            rec["evaluations"] += 1
            for l in r.get("labels", []):
                rec["labels"][l] = rec["labels"].get(l, 0) + 1
            if r.get("nontrivial"):
                rec["nontrivial"].append(hashlib.sha1(key.encode()).hexdigest()[:16])
                if case not in rec["samples"]:      # (Hypothesis starts with its minimal case: keep later ones)
                    rec["samples"] = (rec["samples"] + [case])[-3:]
        return None

    test = given(facet.strategy)(body)
    test = settings(max_examples=max(1, n_cases) + (1 if shard else 0), database=None, deadline=None, verbosity=Verbosity.quiet,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=[Phase.generate, Phase.shrink], print_blob=False)(test)
    test = hypothesis.seed(seed_for(seed, prop, facet.name, shard))(test)
    try:
        test()
    except Violation as v:
        case, msg = state["fail"]
        # hypothesis re-executes the minimal example last, so state["fail"] may not be
        # the minimal one: take the simplest failing case seen.
        best = min(state["failed"], key=lambda k: (len(k), k))
        return {"facet": facet.name, "case": json.loads(best), "message": state["failed"][best], "shrunk_from": case}
    return None
