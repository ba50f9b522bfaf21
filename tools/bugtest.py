"""tools/bugtest.py ID [--notests] [--checks C01,C02]: try a planted bug in a scratch copy of /repo:
applies, demo passes without / fails with, stable tests pass, and which check reports it."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bug = sys.argv[1]
d = os.path.join(HERE, "seeded", bug)
meta = json.load(open(os.path.join(d, "meta.json")))
work = tempfile.mkdtemp(prefix="bug_")
repo = os.path.join(work, "repo"); demo = os.path.join(work, "demo")
env = dict(os.environ, PATH=os.environ["PATH"])
def sh(cmd, cwd, env=env, t=900):
    r = subprocess.run(cmd, cwd=cwd, shell=True, env=env, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr
out = {"bug": bug, "property": meta["property"]}
try:
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    sh("git checkout -- .", repo)
    shutil.copytree(d, demo)
    for f in os.listdir(demo):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(os.path.join(demo, f))
    out["demo_clean"] = sh(f"bash {demo}/demo.sh", repo)[0]
    rc, o = sh(f"git apply {d}/patch.diff", repo)
    out["applies"] = rc == 0
    if rc: print(o)
    rc, o = sh(f"bash {demo}/demo.sh", repo)
    out["demo_bug"] = rc
    out["demo_out"] = o.strip().splitlines()[-1:] 
    if "--notests" not in sys.argv:
        rc, o = sh(f". /opt/vp/env.sh; export PYTHONPATH={repo}; /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider -n 5 --timeout=600 --tb=short -o python_files=test.py jax_am/fem/tests", repo)
        out["tests"] = o.strip().splitlines()[-1]
    checks = sys.argv[sys.argv.index("--checks") + 1].split(",") if "--checks" in sys.argv else [meta["property"]]
    for c in checks:
        if c == "none": continue
        t = time.time()
        rc, o = sh(f"{HERE}/run {c}", HERE, dict(env, VP_REPO=repo, VP_NOEVIDENCE="1"), 1000)
        out["check_" + c] = (rc, [l for l in o.splitlines() if "facet" in l or "ERROR" in l][:1], round(time.time() - t))
finally:
    shutil.rmtree(work, ignore_errors=True)
print(json.dumps(out))
