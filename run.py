"""Entry point of every check:  run.py ID [--tier quick|thorough]   |   run.py --replay FILE
Exit 0 held, 1 violation, 2 error of the check."""
import importlib, json, os, subprocess, sys, time, tempfile, shutil, signal

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "vendor"), os.path.join(HERE, "lib"), os.path.join(HERE, "checks"), HERE]
import vp


HANG = 230.    # s in one case before it counts as not terminating


def load(prop):
    return importlib.import_module(prop)


def corpus(prop):
    f = os.path.join(HERE, "corpus", prop + ".jsonl")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line and not line.startswith("#"):
                yield json.loads(line)


def known(prop):
    f = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(f):
        for line in open(f):
            if line.strip():
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def worker(prop, w, W, tier, seed, outfile, deadline, shrink_s, scratch):
    tempfile.tempdir = scratch
    os.chdir(scratch)
    vp.CURFILE = outfile + ".cur"
    mod = load(prop)
    facets = {f.name: f for f in mod.FACETS}
    out, violation = {}, None
    err = None
    only = os.environ.get("VP_FACET")
    def dump():
        tmp = outfile + ".tmp"
        with open(tmp, "w") as f:
            json.dump({"out": out, "violation": violation, "error": err}, f)
        os.replace(tmp, outfile)
    try:
        # saved regressions / explicit corner cases first, dealt round-robin
        for i, c in enumerate(list(corpus(prop))):
            if i % W != w or violation:
                continue
            if only and c["facet"] != only:
                continue
            f = facets[c["facet"]]
            rec = out.setdefault("corpus", {"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "skipped": 0, "time": 0.0})
            try:
                r = vp.execute(f, c["case"])
                rec["evaluations"] += 1
                if r.get("nontrivial"):
                    rec["nontrivial"].append(vp.hashlib.sha1(vp.canon(c).encode()).hexdigest()[:16])
            except vp.Violation as v:
                violation = {"facet": f.name, "case": c["case"], "message": str(v)}
        fl = list(mod.FACETS)
        k = w % max(1, len(fl))
        for f in fl[k:] + fl[:k]:
            if violation:
                break
            if only and f.name != only:
                continue
            n = f.quick if tier == "quick" else f.thorough
            n = int(round(n * float(os.environ.get("VP_SCALE", "1"))))
            S = min(W, f.shards or W, max(1, n))
            if w >= S:
                continue
            share = n // S + (1 if w < n % S else 0)
            # the remaining time is shared fairly among this worker's remaining facets
            violation = vp.drive(prop, f, seed, w, share, deadline, shrink_s, out)
            dump()
    except vp.HarnessError as e:
        err = str(e)
    except Exception as e:
        import traceback
        err = traceback.format_exc()
        if vp.in_repo_traceback(e.__traceback__) and not isinstance(e, (ImportError,)):
            err = "uncaught: " + err
    dump()


def main(argv):
    if argv and argv[0] == "--worker":
        a = json.loads(argv[1])
        worker(**a)
        return 0
    if argv and argv[0] == "--selftest":
        import hypothesis, jax, jax_am
        print("hypothesis", hypothesis.__version__, "jax", jax.__version__, "jax_am from", os.path.dirname(jax_am.__file__))
        return 0
    if argv and argv[0] == "--replay":
        d = json.load(open(argv[1]))
        mod = load(d["property"])
        f = {f.name: f for f in mod.FACETS}[d["facet"]]
        scratch = tempfile.mkdtemp(prefix="vp_")
        tempfile.tempdir = scratch
        cwd = os.getcwd(); os.chdir(scratch)
        try:
            r = vp.execute(f, d["case"])
        except vp.Violation as v:
            print(f"replay: VIOLATION reproduced: {v}")
            return 1
        finally:
            os.chdir(cwd)
            shutil.rmtree(scratch, ignore_errors=True)
        print("replay: the case holds", r)
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.environ["VERIF_TIER"] = tier
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    mod_level = "exploration"
    W = int(os.environ.get("VP_WORKERS", str(min(8, os.cpu_count() or 8))))
    budget = float(os.environ.get("VP_BUDGET", "240" if tier == "quick" else "2400"))
    hard = budget + (240 if tier == "quick" else 900)
    shrink_s = float(os.environ.get("VP_SHRINK", "40" if tier == "quick" else "180"))
    scratch = tempfile.mkdtemp(prefix="vp_" + prop + "_")
    procs = []
    rc = 2
    try:
        for w in range(W):
            sd = os.path.join(scratch, f"w{w}"); os.makedirs(sd)
            of = os.path.join(scratch, f"w{w}.json")
            a = dict(prop=prop, w=w, W=W, tier=tier, seed=seed, outfile=of, deadline=t0 + budget, shrink_s=shrink_s, scratch=sd)
            log = open(os.path.join(scratch, f"w{w}.log"), "wb")
            procs.append((subprocess.Popen([sys.executable, os.path.abspath(__file__), "--worker", json.dumps(a)],
                                           stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True, env=dict(os.environ, TMPDIR=sd)), of, log))
        alive = set(range(W))
        results = {}
        stop = False
        while alive and not stop:
            time.sleep(0.2)
            for w in list(alive):
                pr, of, log = procs[w]
                if pr.poll() is not None:
                    alive.discard(w)
                    results[w] = json.load(open(of)) if os.path.exists(of) else None
                    if pr.returncode != 0 and (results[w] is None):
                        results[w] = {"out": {}, "violation": None, "error": f"worker {w} ended with {pr.returncode}: " + open(log.name, errors="replace").read()[-3000:]}
                    elif pr.returncode != 0 and not results[w].get("error"):
                        results[w]["crashed"] = pr.returncode
                    if results[w].get("violation"):
                        stop = True
            if time.time() - t0 > hard:
                break
        timed_out = sorted(alive) if not stop else []
        for w in list(alive):
            try:
                os.killpg(procs[w][0].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            procs[w][0].wait()
            of = procs[w][1]
            if os.path.exists(of):
                results[w] = json.load(open(of))
            if w in timed_out and os.path.exists(of + ".cur"):
                try:
                    cur = json.load(open(of + ".cur"))
                except ValueError:
                    continue
                if time.time() - cur["t"] > HANG:
                    results.setdefault(w, {"out": {}, "violation": None, "error": None})
                    results[w]["violation"] = {"facet": cur["facet"], "case": cur["case"],
                        "message": f"the code did not finish this case within {time.time() - cur['t']:.0f} s (cases take seconds)"}
        mod_meta = json.loads(subprocess.run([sys.executable, "-c", f"import sys,json;sys.path[:0]={sys.path[:4]!r};import ast;t=ast.parse(open({os.path.join(HERE,'checks',prop+'.py')!r}).read());d={{n.targets[0].id:ast.literal_eval(n.value) for n in t.body if isinstance(n,ast.Assign) and getattr(n.targets[0],'id','') in ('RULE','ASSUMPTIONS','LEVEL')}};print(json.dumps(d))"],
                                             capture_output=True, text=True, check=True).stdout)
        facets, ev, nt, samples, labels = {}, 0, set(), [], {}
        skipped = 0
        for w in sorted(results):
            r = results[w] or {"out": {}}
            for name, rec in r["out"].items():
                fr = facets.setdefault(name, {"evaluations": 0, "distinct_nontrivial": set(), "labels": {}, "cpu_s": 0.0, "not_run_out_of_time": 0, "samples": []})
                fr["evaluations"] += rec["evaluations"]; ev += rec["evaluations"]
                fr["distinct_nontrivial"] |= set(rec["nontrivial"]); nt |= {name + x for x in rec["nontrivial"]}
                fr["cpu_s"] += rec["time"]
                fr["not_run_out_of_time"] += rec["skipped"]; skipped += rec["skipped"]
                for l, c in rec["labels"].items():
                    fr["labels"][l] = fr["labels"].get(l, 0) + c
                if len(fr["samples"]) < 2:
                    fr["samples"] += rec["samples"][:1]
        for name, fr in facets.items():
            fr["distinct_nontrivial"] = len(fr["distinct_nontrivial"]); fr["cpu_s"] = round(fr["cpu_s"], 1)
            for s in fr.pop("samples"):
                samples.append({"facet": name, "case": s})
        violations = [r["violation"] for r in results.values() if r and r.get("violation")]
        errors = [r["error"] for r in results.values() if r and r.get("error")]
        kf = known(prop)
        replay = None
        if violations:
            v = min(violations, key=lambda v: len(vp.canon(v["case"])))
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            replay = os.path.join(HERE, "replays", f"{prop}-{v['facet']}-{seed}{'-scratch' if os.environ.get('VP_NOEVIDENCE') else ''}.json")
            json.dump({"property": prop, "facet": v["facet"], "case": v["case"], "message": v["message"], "seed": seed,
                       "how": f"{HERE}/run --replay {replay}"}, open(replay, "w"), indent=1)
        evid = {"property": prop, "tier": tier, "seed": seed, "level": mod_meta.get("LEVEL", "exploration"),
                "coverage": {"evaluations": ev, "distinct_nontrivial": len(nt), "rule": mod_meta["RULE"], "samples": samples[:12],
                             "facets": facets, "cases_not_run_out_of_time": skipped, "workers_cut_off": timed_out},
                "assumptions": mod_meta.get("ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
        if not os.environ.get("VP_NOEVIDENCE"):
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
                json.dump(evid, f, indent=1)
        print(f"{prop}: {ev} cases ({len(nt)} distinct non-trivial) in {evid['wall_s']} s; " +
              ", ".join(f"{n}: {r['evaluations']} ({r['cpu_s']} cpu s)" for n, r in sorted(facets.items())) +
              (f"; {skipped} not run (time)" if skipped else "") + (f"; workers cut off: {timed_out}" if timed_out else ""))
        if violations:
            print(f"  facet {v['facet']}: {v['message'][:1500]}")
            print(f"  case {vp.canon(v['case'])[:1500]}")
            print(f"VIOLATION property={prop} replay={replay}")
            rc = 1
        elif errors:
            print("ERROR of the check:\n" + errors[0])
            rc = 2
        elif ev == 0:
            print("ERROR of the check: nothing was evaluated")
            rc = 2
        else:
            for d in kf:
                print(f"KNOWN-FINDING: property={prop} {d['what']}")
            rc = 0
    finally:
        for pr, of, log in procs:
            if pr.poll() is None:
                try:
                    os.killpg(pr.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            log.close()
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
