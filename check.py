#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property
   check.py --build                     build everything the checks need
   check.py --list                      shards per property

Compiles /repo's current source with the harness crate to LLVM IR, runs the
symbolic executor on the shards of the property, confirms each counterexample
against the natively compiled crate and writes evidence/<id>.json."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = "/repo"
WORK = os.path.join(V, "work")
TC = "stable-x86_64-unknown-linux-gnu"
ENV = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_PROFILE", "RUSTC", "RUSTFLAGS", "CARGO_BUILD", "CARGO_ENCODED", "CARGO_TARGET", "CARGO_INCREMENTAL"))}
ENV.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", HOME=os.environ.get("HOME", "/root"))
if "/root/.cargo/bin" not in ENV.get("PATH", ""):
    ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")
JOBS = min(8, os.cpu_count() or 8)


def die(msg, code=2):
    print("ERROR " + msg, flush=True)
    sys.exit(code)


def run(cmd, cwd, what, timeout=600, **env):
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        die("%s failed" % what)
    return p.stdout


# ---------------------------------------------------------------- building

def tree_hash():
    h = hashlib.sha256()
    fs = glob.glob(REPO + "/src/**/*", recursive=True) + [REPO + "/Cargo.toml", REPO + "/Cargo.lock"]
    fs += glob.glob(V + "/harness/src/**/*", recursive=True) + [V + "/harness/Cargo.toml", V + "/harness/Cargo.lock", os.path.abspath(__file__)]
    for f in sorted(fs):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


# what the crate is built with: as it is, or with serde_support
FEATURES = {"": [], "-ser": ["--features", "ser"]}


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.p = os.path.join(WORK, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    with Lock("engine"):
        run(["cargo", "build", "-q", "--release", "--offline"], V + "/engine", "building the symbolic executor")
    return V + "/engine/target/release/rsx"


def prepare(src, dst):
    """makes every hash 0 (a hash map is right for any hash function) and keeps the functions
    the executor has models for from being inlined; the names of the harnesses"""
    api = set()
    skip = False
    with open(dst, "w") as out:
        for line in open(src):
            if skip:
                skip = not line.startswith("}")
                continue
            if line.startswith("define"):
                n = line.split("@", 1)[1].split("(", 1)[0]
                if n.startswith(("harness_", "stub_")):
                    api.add(n)
                if "8hash_one" in n and " i64 @" in line:
                    out.write(line.rstrip().rstrip("{") + "{\n  ret i64 0\n}\n")
                    skip = True
                    continue
                if "converts9from_utf8" in n or "5alloc3fmt6format12format_inner" in n:
                    line = re.sub(r" #(\d+)", r" noinline #\1", line, count=1)
            out.write(line)
    return api


def build_ir(key, feat=""):
    d = os.path.join(WORK, key + feat)
    ll = d + "/a.ll"
    with Lock("ir" + feat):
        if os.path.exists(ll):
            return ll
        os.makedirs(d, exist_ok=True)
        td = WORK + "/ir" + feat
        run(["cargo", "clean", "-q", "--offline", "-p", "mqh", "--release", "--target-dir", td], V + "/harness", "cargo clean")
        # one module of all crates, not yet optimised, so that what is modelled is still separate
        run(["cargo", "rustc", "-q", "--lib", "--crate-type", "staticlib", "--release", "--offline", "--target-dir", td] + FEATURES[feat] + ["--",
             "--emit=llvm-ir", "-C", "save-temps"], V + "/harness", "compiling /repo to LLVM IR", RUSTFLAGS="-C no-prepopulate-passes")
        f = glob.glob(td + "/release/deps/*.rcgu.ll")
        if len(f) != 1:
            die("expected one LLVM module, found %d" % len(f))
        tmp = ll + ".tmp"
        api = prepare(f[0], tmp)
        root = run(["rustc", "--print", "sysroot"], V, "rustc").strip()
        opt = root + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt"
        run([opt, "-S", "--strip-debug", "--internalize-public-api-list=" + ",".join(sorted(api)), "--vectorize-loops=false", "--vectorize-slp=false",
             "-passes=internalize,globaldce,lower-invoke,simplifycfg,globaldce,default<O2>,globaldce", tmp, "-o", tmp + "2"], V, "opt")
        os.unlink(tmp)
        for g in glob.glob(td + "/release/deps/mqh-*"):
            os.unlink(g)
        tmp += "2"
        os.rename(tmp, ll)
    return ll


def build_native(key, feat=""):
    d = os.path.join(WORK, key + feat)
    with Lock("native" + feat):
        os.makedirs(d, exist_ok=True)
        for prof, sub in (("dev", "debug"), ("shipped", "shipped")):
            dst = d + "/replay-" + prof
            if not os.path.exists(dst):
                td = WORK + "/native" + feat
                run(["cargo", "build", "-q", "--bin", "replay", "--offline", "--profile", prof, "--target-dir", td] + FEATURES[feat], V + "/harness", "building the native replay (%s)" % prof)
                shutil.copy2("%s/%s/replay" % (td, sub), dst + ".tmp")
                os.rename(dst + ".tmp", dst)
    return {"dev": d + "/replay-dev", "shipped": d + "/replay-shipped"}


def prune(key):
    ds = [p for p in glob.glob(WORK + "/*") if os.path.exists(p + "/a.ll") and not os.path.basename(p).startswith(key)]
    ds.sort(key=os.path.getmtime)
    for p in ds[:-3]:
        shutil.rmtree(p, ignore_errors=True)


# ---------------------------------------------------------------- replay

def native(binary, shard, hexin, timeout=20):
    """(exit code or None on timeout, lines)"""
    try:
        p = subprocess.run([binary, shard.fn, shard.pstr, hexin or "-"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace").splitlines()
    except subprocess.TimeoutExpired:
        return None, []


def confirm(bins, shard, v):
    """does the real code show what the solver found? (hash order differs from
    process to process, so a few attempts)"""
    for attempt in range(8):
        for prof in ("dev", "shipped"):
            rc, lines = native(bins[prof], shard, v["input"], 20)
            if rc is None:
                return dict(profile=prof, shows="does not end within 20 s")
            if rc not in (0, 3, 4):
                bad = [l for l in lines if l.startswith(("ASSERT", "PANIC"))]
                return dict(profile=prof, shows=bad[0] if bad else "ends with status %d" % rc)
    return None


# ---------------------------------------------------------------- known findings

def known(prop):
    out = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: ") and "property=%s " % prop in l:
                kv = {}
                for w in l[7:].split(" "):
                    if "=" in w:
                        a, b = w.split("=", 1)
                        kv.setdefault(a, b)
                kv["text"] = l.split(" -- ", 1)[1] if " -- " in l else l
                out.append(kv)
    return out


# ---------------------------------------------------------------- main

def smt_check(dump):
    """cross-check of one dumped query with two other solvers"""
    text = "(set-logic ALL)\n" + dump["text"] + "\n(check-sat)\n"
    res = {}
    for name, cmd in (("cvc5", ["cvc5", "--lang=smt2", "--tlimit=10000", "-"]), ("z3-new", ["z3-new", "-in", "-T:10"])):
        try:
            p = subprocess.run(cmd, input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20)
            o = p.stdout.strip().splitlines()
            res[name] = o[0] if o and o[0] in ("sat", "unsat") else ("error" if o and "error" in o[0] else "unknown")
        except (subprocess.TimeoutExpired, FileNotFoundError):
            res[name] = "unknown"
    return res


def main():
    import shards as SH
    a = sys.argv[1:]
    if a and a[0] == "--build":
        build_engine()
        key = tree_hash()
        for feat in FEATURES:
            build_ir(key, feat)
            build_native(key, feat)
        return 0
    if a and a[0] == "--list":
        for p in sorted(SH.PROPS):
            print(p, len(SH.PROPS[p]("quick")), len(SH.PROPS[p]("thorough")))
        return 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    # the longest ones first
    spec = sorted(SH.PROPS[prop](tier), key=lambda s: -(s.max_instrs // 100_000_000))
    deadline = t0 + (420 if tier == "quick" else 840)

    key = tree_hash()
    feat = "-ser" if prop in SH.SERDE else ""
    with cf.ThreadPoolExecutor(3) as ex:
        nat = ex.submit(build_native, key, feat)
        eng = ex.submit(build_engine)
        irf = ex.submit(build_ir, key, feat)
        try:
            rsx, ll = eng.result(), irf.result()
            bins = nat.result()
        except SystemExit as e:
            return e.code
    prune(key)
    t_build = time.time() - t0

    outd = os.path.join(WORK, "out-%s-%d" % (prop, os.getpid()))
    os.makedirs(outd, exist_ok=True)
    repd = os.path.join(WORK, "replays")
    os.makedirs(repd, exist_ok=True)
    stop = threading.Event()
    procs, plock = set(), threading.Lock()
    results, confirmed, unconfirmed, knownhits = [], [], [], []
    kf = known(prop)

    def one(i):
        s = spec[i]
        if stop.is_set():
            return dict(status="skipped", shard=s)
        left = deadline - time.time()
        if left < 3:
            return dict(status="budget", shard=s, error="budget: overall time", paths=0)
        out = "%s/%d.json" % (outd, i)
        # the solver's dumped queries and the native witnesses are samples
        cmd = [rsx, "--ll", ll, "--fn", s.fn, "--params", s.pstr, "--out", out, "--timeout", str(int(min(s.timeout, left))),
               "--max-instrs", str(s.max_instrs), "--witness-every", str(s.witness), "--dump-every", str(s.dump), "--max-violations", "4"]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        with plock:
            procs.add(p)
        try:
            _, err = p.communicate(timeout=min(s.timeout, left) + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
        with plock:
            procs.discard(p)
        if stop.is_set() and p.returncode not in (0, 2):
            return dict(status="skipped", shard=s)
        try:
            j = json.load(open(out))
            os.unlink(out)
        except (OSError, ValueError):
            return dict(status="error", shard=s, error="engine ended with %s: %s" % (p.returncode, (err or b"").decode("utf8", "replace")[-300:]))
        j["shard"] = s
        for v in j["violations"]:
            if s.kinds and v["kind"] not in s.kinds:
                continue
            c = confirm(bins, s, v)
            k = next((k for k in kf if k.get("harness") == s.fn and k.get("params") == s.pstr and k.get("input") == v["input"]), None)
            rec = dict(shard=s, v=v, c=c)
            if c is None:
                unconfirmed.append(rec)
            elif k is not None:
                knownhits.append(k)
            else:
                confirmed.append(rec)
                stop.set()
                with plock:
                    for q in procs:
                        q.kill()
                break
        return j

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(one, range(len(spec))):
            results.append(r)
    shutil.rmtree(outd, ignore_errors=True)
    # a counterexample that the real code does not show: the encoding was wrong there
    for u in unconfirmed:
        for r in results:
            if r["shard"] is u["shard"] and r["status"] == "done":
                r["status"] = "budget"
                r["error"] = "a counterexample that the compiled crate does not show (%s)" % u["v"]["msg"]

    for k in kf:
        if k in knownhits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))

    # witnesses: the executor's prediction of outputs against the compiled crate
    ran = [r for r in results if r["status"] in ("done", "budget") and "paths" in r and "forks" in r]
    wit = [(r["shard"], w) for r in ran for w in r.get("witnesses", [])]
    wit = spread(wit, 48 if tier == "quick" else 240, seed)
    mism = []

    def val(sw):
        s, w = sw
        rc, lines = native(bins["shipped"], s, w["input"], 60)
        outs = [int(l[4:]) for l in lines if l.startswith("OUT ")]
        covs = [int(l[6:]) for l in lines if l.startswith("COVER ")]
        ok = rc in (0, 1) and outs == w["outs"] and sorted(set(covs)) == sorted(set(w["covers"]))
        return ok, dict(harness=s.fn, params=s.pstr, input=w["input"][:200], predicted_outputs=w["outs"], native_outputs=outs, covers=covs, native_exit=rc)

    good, samples = 0, []
    if not confirmed:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for ok, rec in ex.map(val, wit):
                if ok:
                    good += 1
                    if len(samples) < 12:
                        samples.append(rec)
                else:
                    mism.append(rec)
    dumps = [d for r in ran for d in r.get("smt", [])]
    dumps = spread(dumps, 16 if tier == "quick" else 60, seed)
    cross = dict(queries=0, agree=0, unknown=0, disagree=0)
    if not confirmed:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for d, res in zip(dumps, ex.map(smt_check, dumps)):
                cross["queries"] += 1
                want = "sat" if d["sat"] else "unsat"
                for o in res.values():
                    if o == want:
                        cross["agree"] += 1
                    elif o in ("sat", "unsat"):
                        cross["disagree"] += 1
                    else:
                        cross["unknown"] += 1

    if os.environ.get("VERIF_PROFILE"):
        for r in sorted(ran, key=lambda r: -r["wall"])[:25]:
            print("%7.1f s %8d paths %6d queries  %s %s %s" % (r["wall"], r["paths"], r["solver"]["queries"], r["status"], r["shard"].fn, r["shard"].pstr))

    tot = lambda f: sum(r.get(f, 0) or 0 for r in ran)
    sol = lambda f: sum(r["solver"][f] for r in ran)
    covers = {}
    for r in ran:
        c = covers.setdefault(r["shard"].fn, {})
        for k, n in r["covers"].items():
            c[k] = c.get(k, 0) + n
    by = {}
    for r in results:
        by.setdefault(r["status"], []).append(r["shard"])
    undecided = [r for r in results if r["status"] in ("budget", "error")]
    fns = sorted({f for r in ran for f in r.get("functions", [])})
    crate = sorted({demangle(f) for f in fns if "mqtt_packet" in f})
    errors = [r for r in results if r["status"] == "error"]
    vac = []
    if not confirmed and not errors:
        for fn, need in SH.need(spec).items():
            miss = [c for c in need if str(c) not in covers.get(fn, {})]
            if miss and not any(s.fn == fn for s in by.get("budget", [])):
                vac.append("%s never reaches %s" % (fn, miss))

    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2),
        violations=len(confirmed),
        assumptions=SH.ASSUMPTIONS,
        coverage=dict(
            states=tot("paths"), transitions=tot("forks"), traces_validated_against_impl=good, samples=samples or [dict(violation=str(c["v"])) for c in confirmed][:3] or ["none"],
            shards=len(spec), shards_decided=len(by.get("done", [])), shards_truncated=len(by.get("budget", [])), shards_failed=len(errors), shards_skipped_after_violation=len(by.get("skipped", [])),
            undecided=[dict(harness=r["shard"].fn, params=r["shard"].pstr, reason=(r.get("error") or "")[:200], paths=r.get("paths", 0)) for r in undecided][:40],
            bounds=SH.bounds(spec), infeasible_paths_pruned=tot("pruned"), llvm_instructions=tot("instructions"),
            longest_path_instructions=max([r["max_path_instructions"] for r in ran] or [0]), symbolic_input_bytes_max=max([r["symbolic_bytes"] for r in ran] or [0]),
            assertions_reached=tot("asserts"), assertions_symbolic=tot("asserts_symbolic"),
            solver=dict(name=ran[0]["solver"]["version"] if ran else "", queries=sol("queries"), cached=sol("cached"), sat=sol("sat"), unsat=sol("unsat"), unknown=sol("unknown"), seconds=round(sol("seconds"), 2), assertions_proved_unsat=sol("asserts_proved"), cross_checked_with_cvc5_and_z3_new=cross),
            outcome_covers=covers, functions_encoded=len(fns), crate_functions_encoded=crate,
            witness_mismatches=mism[:5], unconfirmed_counterexamples=[dict(harness=u["shard"].fn, params=u["shard"].pstr, **{k: u["v"][k] for k in ("kind", "msg", "input")}) for u in unconfirmed][:10],
            build_seconds=round(t_build, 1), cpu_seconds_engine=round(tot("wall"), 1), source_hash=key,
        ))
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)

    if confirmed:
        for n, r in enumerate(confirmed):
            s, v, c = r["shard"], r["v"], r["c"]
            path = "%s/%s-%s-%d.json" % (repd, prop, key[:8], n)
            json.dump(dict(property=prop, harness=s.fn, params=s.pstr, input=v["input"], solver_found=v["kind"] + ": " + v["msg"], real_code=c, trace=v["trace"],
                           command="%s %s %s %s" % (bins[c["profile"]], s.fn, s.pstr, v["input"] or "-")), open(path, "w"), indent=1)
            print("%s(%s): %s; the compiled crate on input %s: %s" % (s.fn, s.pstr, v["msg"], v["input"][:120], c["shows"]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    for u in unconfirmed[:5]:
        print("UNCONFIRMED %s %s %s %s" % (u["shard"].fn, u["shard"].pstr, u["v"]["msg"], u["v"]["input"]))
    for r in undecided[:8]:
        print("UNDECIDED %s %s: %s" % (r["shard"].fn, r["shard"].pstr, (r.get("error") or "").splitlines()[0:1]))
    for m in mism[:5]:
        print("MISMATCH", m)
    for x in vac:
        print("VACUOUS", x)
    print("%s %s: %d shards, %d decided, %d paths, %d queries (%.1f s solver), %d witnesses confirmed, %.1f s" % (
        prop, tier, len(spec), len(by.get("done", [])), tot("paths"), sol("queries"), sol("seconds"), good, time.time() - t0))
    if mism or vac or cross["disagree"] or tot("paths") == 0 or 2 * len(by.get("done", [])) < len(spec):
        print("no verdict")
        return 2
    return 0


def spread(xs, n, seed):
    if len(xs) <= n:
        return xs
    import random
    return random.Random(seed).sample(xs, n)


def demangle(n):
    """readable enough: the path components of a mangled name"""
    import re
    n = re.sub(r"s[0-9A-Za-z]*_(?=[0-9])", "", n)
    out, i = [], 0
    while i < len(n):
        m = re.compile(r"([1-9][0-9]*)_?").match(n, i)
        if m:
            k, a = int(m.group(1)), m.end()
            w = n[a:a + k]
            if len(w) == k and re.match(r"[A-Za-z_][A-Za-z0-9_]*$", w):
                out.append(w)
                i = a + k
                continue
        i += 1
    return "::".join(w for w in out if w != "mqtt_packet_3_5")[:160]


if __name__ == "__main__":
    sys.exit(main())
