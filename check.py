#!/opt/veriftools/pyvenv/bin/python3
"""Decides one property of rtps-rs: python3-vt check.py C01 [--thorough]

Compiles /repo's current tree together with the harnesses to LLVM IR, explores
the property's harness functions symbolically, confirms every violation by
running it natively, and writes evidence/<property>.json.

exit 0: held; 1: violated (VIOLATION line); anything else: no verdict."""

import collections
import fcntl
import glob
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "llsym"))

CRATE = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
SLICE = 2.0
MAX_TRACES = 250  # replayed paths per harness
BUDGET = {"quick": 780.0, "thorough": 6 * 3600.0}


class NoVerdict(Exception):
    pass


# ---------------------------------------------------------------- build

def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k != "CARGO_HOME" or k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTC"):
            del e[k]
    e["RUSTFLAGS"] = "--cfg rtps_verif"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def forget(target):
    """Make cargo build rtps-rs and the harnesses again, whatever the time stamps say."""
    for profile in ("release", "debug"):
        for pat in ("rtps-rs-*", "harness-*"):
            for p in glob.glob(os.path.join(target, profile, ".fingerprint", pat)):
                shutil.rmtree(p, ignore_errors=True)
    for p in glob.glob(os.path.join(target, "release", "deps", "*.ll")):
        os.unlink(p)


def build():
    """Returns (path of the IR, path of the replay binary)."""
    os.makedirs(TARGET, exist_ok=True)
    ir, rp = os.path.join(TARGET, "ir"), os.path.join(TARGET, "replay")
    forget(ir)
    forget(rp)
    base = ["cargo", "+stable"]
    cmds = [
        base + ["rustc", "--offline", "--release", "--lib", "--target-dir", ir, "--", "--emit=llvm-ir"],
        base + ["build", "--offline", "--bin", "replay", "--features", "replay", "--target-dir", rp],
    ]
    ps = [subprocess.Popen(c, cwd=CRATE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
          for c in cmds]
    for p in ps:
        out, _ = p.communicate()
        if p.returncode != 0:
            raise NoVerdict("build failed:\n" + out[-6000:])
    lls = glob.glob(os.path.join(ir, "release", "deps", "harness*.ll"))
    if len(lls) != 1:
        raise NoVerdict("expected one IR file, found %r" % lls)
    return lls[0], os.path.join(rp, "debug", "replay")


# ---------------------------------------------------------------- harness sources

def harness_sources():
    """name -> (file, covers named in its body, doc comment)"""
    res = collections.OrderedDict()
    for f in sorted(glob.glob(os.path.join(CRATE, "src", "*.rs"))):
        text = open(f).read()
        ms = list(re.finditer(r'((?:^///[^\n]*\n)*)^#\[no_mangle\]\npub extern "C" fn (c\d\d_\w+)\(\) \{\n(.*?)^\}\n',
                              text, re.M | re.S))
        for m in ms:
            doc = " ".join(l[3:].strip() for l in m.group(1).split("\n") if l)
            covers = sorted(set(int(x) for x in re.findall(r"(?<![a-z_])cover\((\d+)\)", m.group(3))))
            res[m.group(2)] = (os.path.basename(f), covers, doc, m.group(3).startswith("    // known finding"))
    return res


# ---------------------------------------------------------------- workers

def worker(mod, conn, opts):
    import engine
    from expr import E
    eng = None
    traces = None
    try:
        eng = engine.Engine(mod)
        eng.thorough = opts["thorough"]
        recorder = None
        if opts["smt_dir"]:
            import smtdump
            recorder = smtdump.Recorder(opts["smt_dir"], os.getpid(), opts["seed"])
            eng.dump = recorder
        while True:
            task = conn.recv()
            if task is None:
                break
            name, items, want = task
            if recorder:
                recorder.name = name
            for k in eng.stats:
                eng.stats[k] = 0
            traces = []
            fresh = [0]

            def on_path(inputs, observed):
                fresh[0] += 1
                if len(traces) < want:
                    traces.append((inputs, observed))

            t = time.time()
            try:
                vs = eng.explore(name, work=items, deadline=time.time() + SLICE, max_violations=8, on_path=on_path)
                conn.send(dict(ok=True, name=name, violations=vs, left=eng.work if not vs else [],
                               stats=dict(eng.stats), covers=eng.covers, ends=eng.ends, checks=eng.checks_seen,
                               traces=traces, secs=time.time() - t))
            except engine.Incomplete as ex:
                # what was found before remains found
                conn.send(dict(ok=False, name=name, why=str(ex), violations=eng.violations, stats=dict(eng.stats),
                               covers=eng.covers, ends=eng.ends, checks=eng.checks_seen, traces=traces,
                               left=[], secs=time.time() - t))
        try:
            subs = eng.covered_subprograms(lambda f: REPO + "/" in f or "/speedy" in f or "/bit-" in f or "/bytes-" in f)
        except Exception:
            subs = set()
        conn.send(sorted(subs))
    except BaseException:
        conn.send(dict(ok=False, name="?", why="internal error\n" + traceback.format_exc(), violations=[],
                       stats={}, covers={}, ends={}, checks={}, traces=[], left=[], secs=0, fatal=True))


class Result:
    def __init__(self):
        self.stats = collections.Counter()
        self.covers = collections.Counter()
        self.ends = collections.Counter()
        self.checks = collections.Counter()
        self.violations = []
        self.traces = []
        self.why = None
        self.secs = 0.0
        self.stopped = False


def explore_all(mod, names, opts, budget):
    """Explore all harnesses, the open part of each tree shared among the workers."""
    ctx = mp.get_context("fork")
    conns, procs = [], []
    for _ in range(WORKERS):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(mod, b, opts), daemon=True)
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    queue = collections.deque((n, [([], None)]) for n in names)
    res = {n: Result() for n in names}
    busy = {}
    idle = list(conns)
    t0 = time.time()
    timed_out = False
    while queue or busy:
        while queue and idle:
            n, items = queue.popleft()
            if res[n].stopped:
                continue
            c = idle.pop()
            c.send((n, items, max(0, MAX_TRACES - len(res[n].traces))))
            busy[c] = n
        if not busy:
            break
        for c in mp.connection.wait(list(busy), timeout=5):
            try:
                r = c.recv()
            except EOFError:
                r = dict(ok=False, name=busy[c], why="a worker died (out of memory?)", violations=[], stats={},
                         covers={}, ends={}, checks={}, traces=[], left=[], secs=0, fatal=True)
            n = busy.pop(c)
            if not r.get("fatal"):
                idle.append(c)
            x = res[n]
            x.stats.update(r["stats"])
            x.covers.update(r["covers"])
            x.ends.update(r["ends"])
            x.checks.update(r["checks"])
            x.violations += r["violations"]
            x.traces += r["traces"][:max(0, MAX_TRACES - len(x.traces))]
            x.secs += r["secs"]
            if not r["ok"]:
                x.why = r["why"]
                x.stopped = True
            if x.violations:
                x.stopped = True
            if not x.stopped and r["left"]:
                left = r["left"]
                k = max(1, min(len(left), len(idle) + 1, 8))
                for i in range(k):
                    queue.append((n, left[i::k]))
            if not conns or (not idle and not busy):
                for m in names:
                    if not res[m].stopped:
                        res[m].why = res[m].why or "no workers left"
                queue.clear()
        if time.time() - t0 > budget:
            timed_out = True
            for n, items in queue:
                res[n].why = "time budget of %d s used up" % budget
            for n in busy.values():
                res[n].why = "time budget of %d s used up" % budget
            break
    subs = set()
    for c in idle:
        try:
            c.send(None)
        except OSError:
            pass
    for c in idle:
        try:
            if c.poll(60):
                r = c.recv()
                if isinstance(r, list):
                    subs.update(tuple(x) for x in r)
        except (EOFError, OSError):
            pass
    for p in procs:
        if timed_out:
            p.kill()
        p.join(5)
        if p.is_alive():
            p.kill()
    return res, subs


# ---------------------------------------------------------------- replay

def replay(binary, thorough, name, inputs):
    cmd = [binary] + (["--thorough"] if thorough else []) + [name] + [str(i) for i in inputs]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return "timeout", "the native run did not end within 60 s"
    out = p.stdout.strip()
    if p.returncode == 0:
        return "held", out
    if p.returncode == 1:
        return "check", out
    if p.returncode == 101:
        return "panic", out
    if p.returncode < 0:
        return "crash", out + " (signal %d)" % -p.returncode
    return "other", out


def compare_traces(binary, thorough, name, traces):
    """Run one model of each path natively; the observations must agree.
    Returns how many did, what differed, and the inputs on which it did."""
    if not traces:
        return 0, None, None
    inp = "".join("%s %s\n" % (name, " ".join(map(str, i))) for i, _ in traces)
    cmd = [binary] + (["--thorough"] if thorough else []) + ["-"]
    p = subprocess.run(cmd, input=inp, capture_output=True, text=True, timeout=300)
    lines = [l for l in p.stdout.split("\n") if l]
    for k, (i, o) in enumerate(traces):
        # (lines behind a difference are not looked at: a run that ends early gives several)
        want = ("OBSERVED " + " ".join(map(str, o))).strip()
        got = lines[k].strip() if k < len(lines) else "(no output)"
        if want != got:
            return k, "inputs %s: symbolic %s, native %s" % (" ".join(map(str, i)), want, got), i
    return len(traces), None, None


# ---------------------------------------------------------------- main

def load_properties():
    return {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()}


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["known"] if k["property"] == prop]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    flags = [a for a in sys.argv[1:] if a.startswith("-")]
    if "--build" in flags:
        build()
        return 0
    prop = args[0]
    only = set(args[1:])
    tier = "thorough" if "--thorough" in flags or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    thorough = 1 if tier == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sources = harness_sources()
    names = [n for n in sources if n.startswith(prop.lower() + "_") and (not only or n in only)]
    if not names:
        raise NoVerdict("no harness for " + prop)

    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if "--no-build" in flags:
            ll = glob.glob(os.path.join(TARGET, "ir/release/deps/harness*.ll"))[0]
            binary = os.path.join(TARGET, "replay/debug/replay")
        else:
            ll, binary = build()
        run_dir = os.path.join(TARGET, "run-%d" % os.getpid())
        os.makedirs(run_dir)
        shutil.copy(binary, run_dir)
        binary = os.path.join(run_dir, "replay")
        t_build = time.time() - t0
        import ll as llmod
        mod = llmod.Mod(ll)
    try:
        return decide(prop, tier, thorough, seed, names, sources, mod, binary, run_dir, t0, t_build, flags)
    finally:
        shutil.rmtree(run_dir, ignore_errors=True)


def decide(prop, tier, thorough, seed, names, sources, mod, binary, run_dir, t0, t_build, flags):
    missing = [n for n in names if n not in mod.funcs]
    if missing:
        raise NoVerdict("not in the IR: %r" % missing)
    smt_dir = None
    if thorough:
        smt_dir = os.path.join(run_dir, "smt")
        os.makedirs(smt_dir)
    opts = dict(thorough=thorough, smt_dir=smt_dir, seed=seed)
    budget = float(os.environ.get("VERIF_BUDGET", BUDGET[tier])) - (time.time() - t0)
    res, subs = explore_all(mod, names, opts, budget)

    known = known_findings(prop)
    seen_known = {}
    confirmed = []
    doubts = []
    for n in names:
        done = set()
        for v in res[n].violations:
            key = (v["kind"], str(v["what"]))
            if key in done:
                continue
            done.add(key)
            how, out = replay(binary, thorough, n, v["inputs"])
            v["native"] = how + ": " + out
            if how in ("held", "other"):
                doubts.append((n, v))
                continue
            k = next((k for k in known if k["harness"] == n and k["native"] == how and k["contains"] in out), None)
            if k is not None:
                seen_known.setdefault(k["id"], (k, n, v))
            else:
                confirmed.append((n, v))

    # the engine against the machine
    compared = 0
    for n in names:
        if any(n == c[0] for c in confirmed):
            continue
        k, bad, inputs = compare_traces(binary, thorough, n, res[n].traces)
        compared += k
        if bad:
            # what the real code does on these inputs counts: if it breaks an
            # assertion, or panics, the property is violated
            how, out = replay(binary, thorough, n, inputs)
            if how in ("check", "panic", "crash"):
                confirmed.append((n, dict(kind="native", what=bad, inputs=inputs, native=how + ": " + out)))
                continue
            doubts.append((n, dict(kind="mismatch", what=bad)))

    smt = dict(checked=0, agreed=0)
    if smt_dir and not confirmed:
        import smtdump
        smt = smtdump.confirm(smt_dir, WORKERS)
        if smt["disagreed"]:
            doubts.append(("-", dict(kind="solvers disagree", what=smt["disagreed"][:3])))

    # vacuity
    for n in names:
        if res[n].violations or res[n].why:
            continue
        for c in sources[n][1]:
            if not res[n].covers.get(c):
                doubts.append((n, dict(kind="vacuous", what="cover point %d is not reached by any input" % c)))
        if not res[n].ends.get("done"):
            doubts.append((n, dict(kind="vacuous", what="no path reaches the end")))

    for kid, (k, n, v) in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for k in known:
        if k["id"] not in seen_known and not ("only" in k):
            print("note: known finding %s did not show in this run" % k["id"])

    total = collections.Counter()
    for n in names:
        total.update(res[n].stats)
    write_evidence(prop, tier, seed, names, sources, res, subs, total, compared, smt, confirmed, seen_known, doubts,
                   t0, t_build)

    if confirmed:
        n, v = confirmed[0]
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.txt" % (prop, n))
        with open(path, "w") as f:
            f.write("# %s violated in harness %s (%s)\n" % (prop, n, v["kind"]))
            f.write("# native run: %s\n" % v["native"].replace("\n", "\n#   "))
            f.write("# reproduce: target/replay/debug/replay %s%s %s\n" % (
                "--thorough " if thorough else "", n, " ".join(map(str, v["inputs"]))))
        print("harness %s, %s" % (n, v["native"]))
        print("inputs: %s" % " ".join(map(str, v["inputs"])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1

    bad = [(n, res[n].why) for n in names if res[n].why]
    for n, why in bad:
        print("no verdict: %s: %s" % (n, why))
    for n, v in doubts:
        print("no verdict: %s: %s: %s %s" % (n, v["kind"], v["what"], v.get("native", "")))
    if bad or doubts:
        return 2
    print("%s held: %d harnesses, %d paths, %d checks, %d queries (%.1f s solver), %d paths replayed natively, %.1f s" % (
        prop, len(names), total["paths"], total["checks"], total["queries"], total["solver_s"], compared,
        time.time() - t0))
    return 0


def write_evidence(prop, tier, seed, names, sources, res, subs, total, compared, smt, confirmed, seen_known, doubts,
                   t0, t_build):
    samples = []
    per = []
    for n in names:
        r = res[n]
        per.append(dict(harness=n, what=sources[n][2], paths=r.stats["paths"], decisions=r.stats["decisions"],
                        assertions=r.stats["checks"], assertions_by_simplification=r.stats["checks_trivial"],
                        queries=r.stats["queries"], unsat=r.stats["unsat"], sat=r.stats["sat"],
                        solver_s=round(r.stats["solver_s"], 2), cpu_s=round(r.secs, 2),
                        assumption_excluded_paths=r.stats["infeasible"], complete=not r.why and not r.stopped,
                        covers={str(k): v for k, v in sorted(r.covers.items())}, ends=dict(r.ends)))
        if r.traces:
            i, o = r.traces[len(r.traces) // 2]
            samples.append(dict(harness=n, inputs=i[:64], observed=o[:32]))
    fns = sorted(set("%s :: %s" % (f.split("/repo/")[-1] if "/repo/" in f else os.path.basename(os.path.dirname(os.path.dirname(f))) + "/" + os.path.basename(f), nm)
                     for f, nm, ln in subs))
    own = [f for f in fns if f.startswith("src/")]
    cov = dict(
        states=total["paths"] + total["decisions"],
        transitions=total["decisions"] + total["sat"] + total["paths"],
        traces_validated_against_impl=compared,
        samples=samples[:12],
        explanation="Bounded symbolic execution of the LLVM IR that rustc makes of /repo's current tree (whole "
                    "program, overflow and debug assertions on): states are the decision points and ends of the "
                    "execution tree, every assertion on every path is discharged by z3 (bit-vectors) for all values "
                    "of the inputs, and one model of up to %d paths per harness is run natively and must give the "
                    "observations the symbolic run predicts." % MAX_TRACES,
        exhaustive=all(not res[n].why and not res[n].stopped for n in names),
        harnesses=per,
        bounds=[dict(harness=n, bound=sources[n][2]) for n in names],
        paths=total["paths"], assertions=total["checks"], queries=total["queries"], unsat=total["unsat"],
        solver_s=round(total["solver_s"], 2), build_s=round(t_build, 2),
        second_solver=smt,
        functions_encoded=own,
        library_functions_encoded=len(fns) - len(own),
        known_findings=[dict(id=k, inputs=v[2]["inputs"], native=v[2]["native"]) for k, v in seen_known.items()],
        violations=[dict(harness=n, kind=v["kind"], inputs=v["inputs"], native=v["native"]) for n, v in confirmed],
        doubts=[dict(harness=n, kind=v["kind"], what=str(v["what"])) for n, v in doubts],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=["LLVM IR of rustc stable at opt-level 1 with overflow checks and debug assertions stands for "
                           "the source; the symbolic executor in llsym/ interprets it correctly (cross-checked natively)",
                           "allocation never fails; formatted text (format!) is replaced by an empty string",
                           "inputs beyond the bounds named per harness are not covered"],
              wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    try:
        rc = main()
    except NoVerdict as e:
        print("no verdict: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
