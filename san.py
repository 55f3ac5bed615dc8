#!/usr/bin/env python3
"""C20: runs the workloads of the harness under Miri, AddressSanitizer (with
LeakSanitizer) and ThreadSanitizer, and reports what these observed."""
import json, os, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
DEEP = os.environ.get("VERIF_TIER") == "thorough"
START = time.time()
SCRATCH = "/tmp/hv.C20.%d" % os.getpid()
NATIVE = V + "/target/release/hv"
FLAGS = "--cfg hastur_verif -A semicolon_in_expressions_from_macros -A warnings"
MIRI_S = int(os.environ.get("HV_MIRI_S", 1500 if DEEP else 130))
ASAN_S = int(os.environ.get("HV_ASAN_S", 600 if DEEP else 45))
TSAN_S = int(os.environ.get("HV_TSAN_S", 600 if DEEP else 45))
notes, found, legs = [], [], {}
observed = {}
lock = threading.Lock()
def count(k, n=1):
    with lock: observed[k] = observed.get(k, 0) + n

def env(flags, target, **more):
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.update(RUSTFLAGS=flags, CARGO_TARGET_DIR=V + "/target/" + target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **more)
    return e

def build(name, cmd, e):
    """Builds with the hooks, or else without. None if there is no such build"""
    for feat in (["--features", "hooks"], []):
        r = subprocess.run(cmd + feat, cwd=V + "/san", env=e, capture_output=True, text=True, timeout=800)
        if r.returncode == 0: return feat
    notes.append("%s: does not build: %s" % (name, r.stderr[-1500:]))
    return None

def report(leg, what, text, how):
    with lock: found.append((leg, what, text, how))

def run(cmd, e, limit):
    try:
        r = subprocess.run(cmd, cwd=V + "/san", env=e, capture_output=True, timeout=limit)
        return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace")

def all_at_once(jobs):
    ts = [threading.Thread(target=j) for j in jobs]
    for t in ts: t.start()
    for t in ts: t.join()

def last_case(out):
    c = [l for l in out.splitlines() if l.startswith("CASE ")]
    return c[-1] if c else "before the first case"

# ------------------------------------------------------------------ Miri
def miri():
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--release", "-q"]
    e = env(FLAGS, "miri", MIRIFLAGS="-Zmiri-disable-isolation")
    corpus = SCRATCH + "/corpus"
    n = 4000
    open(corpus, "wb").write(subprocess.run([NATIVE, "corpus", str(SEED), str(n)], capture_output=True, check=True).stdout)
    texts = open(corpus, encoding="utf8").read().split("\x1e")
    # The first run builds; is there anything to run at all?
    open(SCRATCH + "/one", "w").write("A = b\n\x1e")
    for feat in (["--features", "hooks"], []):
        rc, out, err = run(base + feat + ["--", "feed", SCRATCH + "/one", "0", "1", "100"], dict(e, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows"), 400)
        if "RAN 1" in out or "Undefined Behavior" in err: break
    else:
        notes.append("Miri: cannot run here: " + err[-1500:])
        return
    models = ["-Zmiri-tree-borrows"] + 2 * ["-Zmiri-disable-stacked-borrows"]
    jobs = 8
    def one(k):
        flags = "-Zmiri-disable-isolation -Zmiri-seed=%d -Zmiri-preemption-rate=%s %s" % (SEED * 100 + k, ["0.01", "0.1"][k % 2], models[k % len(models)])
        # The building blocks are cheap, and where pointers are handled. Makefiles are parsed by the others
        cmd = base + feat + ["--"] + (["look", str(SEED * 50 + k), "0", "100000", str(MIRI_S)] if k in (0, 1) else ["feed", corpus, str(k), str(jobs), str(MIRI_S)])
        rc, out, err = run(cmd, dict(e, MIRIFLAGS=flags), MIRI_S + 60)
        cases = sum(l.startswith("CASE ") for l in out.splitlines())
        count("miri_cases", cases)
        count("miri_cases_of_makefiles" if k > 1 else "miri_cases_of_building_blocks", cases)
        if "INVALID" in out: report("Miri", "a str that is not UTF-8", out[-2000:], cmd)
        m = re.search(r"error: (Undefined Behavior|memory leaked|Data race|the evaluated program leaked|deadlock)[^\n]*", err)
        if m:
            c = last_case(out)
            t = ""
            if k > 1 and c.split()[-1].isdigit(): t = "the makefile:\n" + texts[int(c.split()[-1])] + "\n"
            report("Miri", m.group(0), "%s\nMIRIFLAGS=%s\n%s%s" % (c, flags, t, err[:6000]), cmd)
        elif rc == 0:
            with lock: legs["Miri"] = legs.get("Miri", 0) + 1
            m = re.search(r"RAN (\d+) (\d+)", out)
            if m: count("miri_characters_and_segments_looked_at", int(m.group(2)))
        elif rc is None:
            with lock: legs["Miri, cut off in its last case"] = legs.get("Miri, cut off in its last case", 0) + 1
        else:
            notes.append("Miri job %d: %s" % (k, err[-800:]))
    all_at_once([lambda k=k: one(k) for k in range(jobs)])

# ------------------------------------------------- AddressSanitizer and LeakSanitizer
def native(leg, target, flags, extra, seconds, work, options):
    tgt = "x86_64-unknown-linux-gnu"
    e = env(FLAGS + flags, target, **options)
    feat = build(leg, ["cargo", "+nightly", "build", "--offline", "--release", "--target", tgt] + extra, e)
    if feat is None: return
    binary = "%s/target/%s/%s/release/san" % (V, target, tgt)
    def one(k, ids, share):
        cmd = [binary, "san", ids, str(SEED * 1000 + k), "0", "100000000", str(seconds)]
        en = dict(e)
        for attempt in (0, 1):
            rc, out, err = run(cmd, en, seconds + 60)
            if "LeakSanitizer has encountered a fatal error" in err:
                notes.append(leg + ": leaks cannot be looked for here")
                en["ASAN_OPTIONS"] = en.get("ASAN_OPTIONS", "") + ":detect_leaks=0"
                continue
            break
        cases = 0
        for l in out.splitlines():
            p = l.split()
            if p and p[0] == "RAN":
                cases += int(p[2]); count("%s_cases_of_%s" % (target, p[1]), int(p[2])); count("%s_threads" % target, int(p[5]))
        if cases == 0: cases = sum(l.startswith("CASE ") for l in out.splitlines())
        count(target + "_cases", cases)
        if "INVALID" in out: report(leg, "a str that is not UTF-8", out[-2000:], cmd)
        m = re.search(r"(ERROR: (Address|Leak)Sanitizer|WARNING: ThreadSanitizer)[^\n]*", err)
        if m and "stack-overflow" not in m.group(0) and "out-of-memory" not in m.group(0) and "fatal error" not in m.group(0) and "unexpected memory mapping" not in err:
            report(leg, m.group(0), last_case(out) + "\n" + err[:6000], cmd)
        elif rc == 0:
            with lock: legs[leg] = legs.get(leg, 0) + 1
        else:
            notes.append("%s job %d ended with %s: %s" % (leg, k, rc, err[-500:]))
    all_at_once([lambda k=k, ids=ids: one(k, ids, 1) for k, ids in enumerate(work)])

os.makedirs(SCRATCH)
try:
    miri()
    if not found:
        native("AddressSanitizer", "asan", " -Zsanitizer=address", [], ASAN_S,
               ["C17", "C16", "SHARE", "C12", "C07", "C01", "C11", "C14"], {"ASAN_OPTIONS": "detect_leaks=1:halt_on_error=1:detect_stack_use_after_return=1"})
    if not found:
        native("ThreadSanitizer", "tsan", " -Zsanitizer=thread", ["-Zbuild-std"], TSAN_S, ["SHARE", "SHARE", "C14", "SHARE"], {"TSAN_OPTIONS": "halt_on_error=1:second_deadlock_stack=1"})
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)

known = []
if os.path.exists(V + "/san/known.txt"):
    known = [l.strip() for l in open(V + "/san/known.txt") if l.strip()]
wall = time.time() - START
total = sum(v for k, v in observed.items() if k in ("miri_cases", "asan_cases", "tsan_cases"))
observed["legs_completed"] = legs
observed["notes"] = notes
ev = {"property": "C20", "tier": "thorough" if DEEP else "quick", "seed": SEED, "level": "exploration",
 "coverage": {"evaluations": total, "distinct_nontrivial": total,
  "rule": "Small generated makefiles and histories of operations on evaluated text run under Miri (several seeds and preemption rates; tree borrows, or no borrow model; value validation, alignment, leak and data race detection on), each makefile's values shared with a second thread; the harness's large workloads under AddressSanitizer with leak detection; threads that share values, databases and name caches, and engines in parallel threads, under ThreadSanitizer with an instrumented standard library. Every str that comes out is checked to be UTF-8. All cases differ by their seed, and all allocate, share and drop values: none is trivial.",
  "samples": ["miri: feed corpus item", "asan: C16 histories", "tsan: SHARE programs"], "observed": observed},
 "assumptions": ["schedules are those Miri's scheduler and the operating system produce", "the aliasing model of Miri is tree borrows; string-interner 0.7.1 breaks the older stacked borrows model", "sized-chunks 0.1.3, a dependency, is replaced by a copy without mem::zeroed (known finding)"],
 "wall_s": round(wall, 2), "violations": len(found)}
os.makedirs(V + "/evidence", exist_ok=True)
json.dump(ev, open(V + "/evidence/C20.json", "w"), indent=1)
for k in known: print("KNOWN-FINDING: property=C20 " + k)
for n in notes: print("note:", n[:600])
print("C20: %d cases, legs completed: %s, %.0f s" % (total, legs, wall))
if found:
    os.makedirs(V + "/replay", exist_ok=True)
    leg, what, text, how = found[0]
    path = V + "/replay/C20-%d.txt" % SEED
    open(path, "w").write("%s: %s\ncommand: %s\n%s\n" % (leg, what, " ".join(how), text))
    print(leg + ": " + what); print(text[:3000])
    print("VIOLATION property=C20 replay=" + path)
    sys.exit(1)
if not legs:
    print("error: no sanitizer could be run"); sys.exit(2)
