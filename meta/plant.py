#!/usr/bin/env python3
"""plant.py [ID ...]: (re)generates seeded/<ID> from the descriptions in
meta/bugs/*.py against /repo's HEAD, confirming each in a scratch copy:
it builds, the stable tests pass, the demonstration fails with it and passes
without. With --check, also runs the property's check against it in /repo."""
import sys, os, subprocess, json, shutil, glob, tempfile, re
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
BUGS = {}
class Bug: pass
def bug(id, prop, edits, needs, breaks, demo, runner="demo.sh"):
    b = Bug(); b.id, b.prop, b.edits, b.needs, b.breaks, b.demo = id, prop, edits, needs, breaks, demo
    b.runner = runner
    assert id not in BUGS, id
    BUGS[id] = b
PRELUDE = open(here + "/demo_prelude.rs").read()
for f in sorted(glob.glob(here + "/bugs/*.py")):
    exec(compile(open(f).read(), f, "exec"), {"bug": bug})
args = [a for a in sys.argv[1:] if not a.startswith("-")]
check = "--check" in sys.argv
only_check = "--only-check" in sys.argv
ids = args or list(BUGS)
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
env = dict(os.environ, RUSTFLAGS="-A semicolon_in_expressions_from_macros -Awarnings")
S = "/tmp/plant_repo"
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable"))
def demo_dir(b):
    d = verif + "/seeded/" + b.id
    os.makedirs(d, exist_ok=True)
    open(d + "/main.rs", "w").write(PRELUDE + "\nfn demo() {\n" + b.demo.strip("\n") + "\n}\n")
    shutil.copy(here + "/" + b.runner, d + "/demo.sh")
    shutil.copy(here + "/demo.Cargo.lock", d + "/Cargo.lock.in")
    return d
def run_demo(d, cwd):
    e = dict(env, DEMO_TARGET="/tmp/plant_demo_target")
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, capture_output=True, text=True, env=e)
    return r.returncode, (r.stdout + r.stderr)[-600:]
if not only_check:
    sh(f"rm -rf {S}"); sh(f"git -C /repo worktree prune")
    r = sh(f"git clone -q /repo {S} && cp /repo/Cargo.lock {S}/ ; mkdir -p {S}/target")
    assert os.path.exists(S + "/src/lib.rs"), r.stderr
for i in ids:
    b = BUGS[i]
    if not only_check:
        sh(f"git -C {S} checkout -q -- .")
        d = demo_dir(b)
        c, o = run_demo(d, S)
        if c != 0: print(i, "DEMO FAILS ON UNCHANGED TREE", o); continue
        for f, old, new in b.edits:
            p = S + "/" + f; t = open(p).read()
            if t.count(old) != 1: print(i, "EDIT MATCHES", t.count(old), f, old[:60]); break
            open(p, "w").write(t.replace(old, new))
        else:
            diff = sh(f"git -C {S} diff").stdout
            # lines of the original repository?
            r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/plant.log 2>&1", cwd=S, env=env)
            log = open("/tmp/plant.log").read()
            failed = set(re.findall(r"^test (\S+) \.\.\. FAILED", log, re.M))
            if "error: could not compile" in log or "error[E" in log: print(i, "DOES NOT COMPILE", log[-800:]); continue
            bad = [t for t in failed if any(s.endswith(t) for s in stable)]
            if bad: print(i, "BREAKS TESTS", bad); continue
            c, o = run_demo(d, S)
            if c == 0: print(i, "DEMO PASSES WITH THE BUG"); continue
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": b.prop, "needs": b.needs, "what_it_breaks": b.breaks}, open(d + "/meta.json", "w"), indent=1)
            base = sh(f"git -C /repo diff 4b802ef HEAD -- " + " ".join(set(f for f, _, _ in b.edits))).stdout
            added = set(l[1:] for l in base.splitlines() if l.startswith("+"))
            rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            own = [l for l in rem if l in added]
            print(i, b.prop, "ok;", ("NOTE: all removed lines are ours" if rem and len(own) == len(rem) else ""), o.strip().splitlines()[-1][:160] if o.strip() else "")
    if check or only_check:
        pd = verif + "/seeded/" + i + "/patch.diff"
        r = sh(f"git -C /repo apply {pd}")
        if r.returncode: print(i, "DOES NOT APPLY", r.stderr); continue
        try:
            t = sh(f"bash {verif}/check.sh {b.prop}", env=dict(os.environ))
            v = re.findall(r"^VIOLATION.*$", t.stdout, re.M)
            line = [l for l in t.stdout.splitlines() if re.match(r"C\d\d: ", l)]
            c = json.load(open(here + "/catches.json")) if os.path.exists(here + "/catches.json") else {}
            c[i] = [b.prop, bool(t.returncode == 1 and v)]
            json.dump(c, open(here + "/catches.json", "w"), indent=0, sort_keys=True)
            print("   check", b.prop, "exit", t.returncode, "CAUGHT" if t.returncode == 1 and v else "MISSED", line)
        finally:
            sh("git -C /repo checkout -- .")
sh(f"rm -rf {S} /tmp/plant_demo_target /tmp/plant.log")
