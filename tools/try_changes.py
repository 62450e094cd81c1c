#!/usr/bin/env python3
"""Development tool (not a check): applies patches to private copies of /repo (mounted over /repo in
a user namespace) and runs build, stable tests, the demonstration and checks there.
Usage: try_changes.py [-j N] [-p P01,P02 | -p all] [-t tier] DIR_OR_PATCH...
A directory holds patch.diff (+ demo.sh, meta.json naming the property)."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, argparse

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = argparse.ArgumentParser()
a.add_argument("-j", type=int, default=3)
a.add_argument("-p", default="")
a.add_argument("-t", default="quick")
a.add_argument("--no-demo", action="store_true")
a.add_argument("what", nargs="+")
a = a.parse_args()
PROPS = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]

SCRIPT = r'''
set -u
mount --bind "$W/repo" /repo && mount --bind "$W/verif" /verif || exit 9
cd /repo
res() { echo "RES $1 $2"; }
if [ -n "$DEMO" ]; then bash "$DEMO" >"$W/demo0.log" 2>&1; res demo_clean $?; fi
git apply "$PATCH"; res apply $?
bash /opt/vp/build.sh >"$W/build.log" 2>&1; res build $?
bash /opt/vp/test.sh "$W/out.json" >"$W/test.log" 2>&1
python3 - "$W/out.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
t=open(sys.argv[1]).read(); o=json.loads(t)
passed=o.get('passed', o.get('pass', []))
miss=[x for x in b if x not in passed]
print("RES tests", len(miss), miss[:3])
PY
if [ -n "$DEMO" ]; then bash "$DEMO" >"$W/demo1.log" 2>&1; res demo_patched $?; fi
for p in $CHECKS; do
  cd /verif; s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=$TIER timeout 2400 python3 check.py $p $TIER_ARG >"$W/$p.log" 2>&1; rc=$?
  echo "RES $p $rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' "$W/$p.log") $(grep -m1 '^VIOLATION' "$W/$p.log" | cut -c1-150)"
done
'''


def one(what):
    what = os.path.abspath(what)
    if os.path.isdir(what):
        patch, demo = os.path.join(what, "patch.diff"), os.path.join(what, "demo.sh")
        meta = json.load(open(os.path.join(what, "meta.json"))) if os.path.exists(os.path.join(what, "meta.json")) else {}
        name = os.path.basename(what)
    else:
        patch, demo, meta, name = what, "", {}, os.path.basename(what)
    props = PROPS if a.p == "all" else (a.p.split(",") if a.p else [meta.get("property")])
    W = tempfile.mkdtemp(prefix="tc-")
    try:
        shutil.copytree("/repo", W + "/repo", symlinks=True)
        os.makedirs(W + "/verif")
        for n in os.listdir(ROOT):
            if n in ("work", "seeded", ".git"):
                continue
            s = os.path.join(ROOT, n)
            (shutil.copytree if os.path.isdir(s) else shutil.copy2)(s, os.path.join(W, "verif", n))
        shutil.copy2(patch, W + "/patch.diff")
        d = ""
        if demo and not a.no_demo and os.path.exists(demo):
            shutil.copytree(os.path.dirname(demo), W + "/demo")
            d = W + "/demo/demo.sh"
        env = dict(os.environ, W=W, PATCH=W + "/patch.diff", DEMO=d, CHECKS=" ".join(props), TIER=a.t,
                   TIER_ARG=a.t if a.t != "quick" else "")
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", SCRIPT], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        keep = f"/tmp/tclogs/{name}"
        shutil.rmtree(keep, ignore_errors=True)
        os.makedirs(keep)
        for f in os.listdir(W):
            if f.endswith(".log"):
                shutil.copy(os.path.join(W, f), keep)
        return name, meta.get("property"), r.stdout
    finally:
        shutil.rmtree(W, ignore_errors=True)


with cf.ThreadPoolExecutor(a.j) as ex:
    for name, prop, out in ex.map(one, a.what):
        lines = [l[4:] for l in out.splitlines() if l.startswith("RES ")]
        other = [l for l in out.splitlines() if not l.startswith("RES ")]
        print(f"{name} [{prop}]: " + " | ".join(lines) + ("  !! " + " / ".join(other[:3]) if other else ""), flush=True)
