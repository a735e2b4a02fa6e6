#!/usr/bin/env python3
"""Solver-based checks of rusty_genes.

  vp.py setup                 build the executor and warm the build caches
  vp.py check C01 [--tier t]  decide one property on /repo's current tree
  vp.py manifest              rewrite MANIFEST.json from checks.py

A check copies /repo/src, compiles it with rustc to LLVM IR together with the property's harnesses and
the environment models, explores every path of every harness entry with the symbolic executor
(engine/, z3 decides), replays what it found on the unmodified crate and writes the evidence.
"""
import argparse, json, os, re, shutil, subprocess, sys, time, random
from concurrent.futures import ThreadPoolExecutor, as_completed

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(ROOT, ".build"))
EVID = os.environ.get("VP_EVIDENCE", os.path.join(ROOT, "evidence"))
JOBS = int(os.environ.get("VP_JOBS", str(os.cpu_count() or 8)))
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
ENGINE = os.path.join(BUILD, "engine", "release", "vpsym")
IR_MODULES = ("vpharness", "rusty_genes", "vpstd", "rand", "rand_core", "rayon", "object_pool", "vpq")
T0 = time.time()

sys.path.insert(0, ROOT)


class CheckError(Exception):
    pass


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(kw)
    return e


def run(cmd, cwd, e=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    return p


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


# ---- builds -------------------------------------------------------------------------------------

def build_engine():
    p = run(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "engine")], os.path.join(ROOT, "engine"))
    if p.returncode != 0:
        raise CheckError("the executor does not build:\n" + p.stderr[-3000:])


def features():
    return sorted(re.findall(r'"(c\d+)"', open(os.path.join(ROOT, "harness/src/properties.rs")).read()))


PROFILE = """
[profile.release]
opt-level = 2
panic = "%s"
overflow-checks = true
debug = 1
codegen-units = %d
%s
[profile.dev]
opt-level = 1
debug = 0
"""


def build_ir(prop, size=""):
    """LLVM IR of the property's harnesses, of the copy of rusty_genes and of the models."""
    gen = os.path.join(BUILD, "gen")
    want = set()
    for d, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if not f.endswith(".rs"):
                continue
            full = os.path.join(d, f)
            rel = os.path.relpath(full, REPO)
            want.add(rel)
            text = open(full).read()
            # the hashed collections are modelled: every `std` path goes through vpstd
            text = re.sub(r"(?<![A-Za-z0-9_])std::", "vpstd::", text)
            write_if_changed(os.path.join(gen, rel), text)
    for d, _, files in os.walk(os.path.join(gen, "src")):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), gen)
            if rel not in want:
                os.unlink(os.path.join(gen, rel))
    m = os.path.join(ROOT, "models")
    write_if_changed(os.path.join(gen, "Cargo.toml"), f"""[package]
name = "rusty_genes"
version = "0.1.3"
edition = "2021"
[dependencies]
rayon = {{ path = "{m}/rayon" }}
rand = {{ path = "{m}/rand", features = ["small_rng"] }}
object-pool = {{ path = "{m}/object-pool" }}
vpstd = {{ path = "{m}/vpstd" }}
[lints.rust]
warnings = "allow"
[workspace]
""")
    sym = os.path.join(BUILD, "sym")
    feats = "\n".join(f"{f} = []" for f in features())
    write_if_changed(os.path.join(sym, "Cargo.toml"), f"""[package]
name = "vpharness"
version = "0.0.0"
edition = "2021"
[lib]
path = "{ROOT}/harness/src/lib.rs"
[features]
{feats}
wide = ["vpstd/wide"]
huge = ["vpstd/huge"]
[dependencies]
rusty_genes = {{ path = "{gen}" }}
rand = {{ path = "{m}/rand", features = ["small_rng"] }}
object-pool = {{ path = "{m}/object-pool" }}
vpq = {{ path = "{m}/vpq" }}
vpstd = {{ path = "{m}/vpstd" }}
{PROFILE % ("abort", 1, "")}
[lints.rust]
warnings = "allow"
[workspace]
""")
    e = env(RUSTFLAGS="--cfg vpsym --emit=llvm-ir,metadata,link -C no-vectorize-loops -C no-vectorize-slp")
    cmd = ["cargo", "build", "--release", "--offline", "--features", prop.lower() + ("," + size if size else ""), "--message-format=json",
           "--target-dir", os.path.join(sym, "target" + ("-" + size if size else ""))]
    for attempt in (0, 1):
        p = run(cmd, sym, e)
        if p.returncode != 0:
            raise CheckError("the encoded crate does not build:\n" + rendered(p))
        lls = {}
        missing = False
        for line in p.stdout.splitlines():
            if not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("reason") != "compiler-artifact":
                continue
            name = d["target"]["name"].replace("-", "_")
            if name in IR_MODULES:
                for f in d["filenames"]:
                    if f.endswith(".rmeta"):
                        ll = re.sub(r"/lib([^/]*)\.rmeta$", r"/\1.ll", f)
                        lls[name] = ll
                        missing |= not os.path.exists(ll)
        if not missing and set(lls) >= {"vpharness", "rusty_genes"}:
            return gen, [lls[n] for n in IR_MODULES if n in lls]
        shutil.rmtree(os.path.join(sym, "target" + ("-" + size if size else "")), ignore_errors=True)
    raise CheckError("the compiler emitted no IR")


def rendered(p):
    out = []
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            d = json.loads(line)
            if d.get("reason") == "compiler-message" and d["message"]["level"] == "error":
                out.append(d["message"]["rendered"])
    return ("\n".join(out) + p.stderr)[-4000:]


_replay = {}


def build_replay(prop, profile):
    """The same harnesses against /repo itself; profile `pool`: with the thread pool's model in
    rayon's place, to follow a given schedule."""
    key = (prop, profile)
    if key in _replay:
        return _replay[key]
    d = os.path.join(BUILD, "replay-pool" if profile == "pool" else "replay")
    lib = os.path.join(d, "lib")
    feats = "\n".join(f"{f} = []" for f in features())
    write_if_changed(os.path.join(lib, "Cargo.toml"), f"""[package]
name = "vpharness"
version = "0.0.0"
edition = "2021"
[lib]
path = "{ROOT}/harness/src/lib.rs"
[features]
{feats}
[dependencies]
rusty_genes = {{ path = "{REPO}" }}
rand = {{ version = "0.8.5", features = ["small_rng"] }}
object-pool = "*"
vpq = {{ path = "{ROOT}/models/vpq" }}
[lints.rust]
warnings = "allow"
""")
    feats = "\n".join(f'{f} = ["vpharness/{f}"]' for f in features())
    write_if_changed(os.path.join(d, "Cargo.toml"), f"""[package]
name = "vpreplay"
version = "0.0.0"
edition = "2021"
[[bin]]
name = "vpreplay"
path = "{ROOT}/replay/main.rs"
[features]
{feats}
[dependencies]
vpharness = {{ path = "lib" }}
vpq = {{ path = "{ROOT}/models/vpq" }}
{(PROFILE % ("unwind", 16, "incremental = false")).replace("overflow-checks = true", "")}
[lints.rust]
warnings = "allow"
[workspace]
{f'[patch.crates-io]{chr(10)}rayon = {{ path = "{ROOT}/models/rayon" }}' if profile == "pool" else ""}
""")
    if not os.path.exists(os.path.join(d, "Cargo.lock")) and os.path.exists(os.path.join(REPO, "Cargo.lock")):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    cmd = ["cargo", "build", "--offline", "--features", prop.lower()] + ([] if profile == "dev" else ["--release"])
    p = run(cmd, d)
    if p.returncode != 0:
        raise CheckError("the replay crate does not build:\n" + p.stderr[-4000:])
    built = os.path.join(d, "target", "debug" if profile == "dev" else "release", "vpreplay")
    mine = os.path.join(BUILD, "bin", f"vpreplay-{prop}-{profile}")
    os.makedirs(os.path.dirname(mine), exist_ok=True)
    shutil.copy(built, mine)
    _replay[key] = mine
    return mine


def replay_lines(prop, profile, lines, timeout):
    """Outcome of each line, `hang` from the one that did not end."""
    exe = build_replay(prop, profile)
    path = os.path.join(BUILD, "bin", f"values-{prop}-{os.getpid()}-{random.randrange(1 << 30)}")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    e = env(RAYON_NUM_THREADS="1")
    p = subprocess.Popen([exe, "run", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=e)
    hang = False
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        hang = True
        p.kill()
        out, _ = p.communicate()
    os.unlink(path)
    r = []
    for line in out.splitlines():
        k, m, o = (line.split("\t") + ["", ""])[:3]
        r.append((k, m, [int(x) for x in o.split()]))
    while len(r) < len(lines):
        r.append(("hang" if hang else "abort", "", []))
        hang = False if hang else hang
        if r[-1][0] == "hang":
            # the lines after it were not run
            r += [("not-run", "", [])] * (len(lines) - len(r))
    return r


# ---- entries ------------------------------------------------------------------------------------

# entries for builds with larger models of the hashed collections: wide or huge
SIZE = {}


def entries(prop, tier):
    text = open(os.path.join(ROOT, "harness/src", prop.lower() + ".rs")).read()
    r = []
    for m in re.finditer(r"^\s*(quick|thorough|wide|widest|huge)(?:\s*/\s*(\d+))?\s+(\w+)\s*=>\s*(.*?);\s*$", text, re.M):
        if m[1] in ("quick", "wide", "huge") or tier == "thorough":
            r.append((m[3], int(m[2] or 1), m[4].strip()))
            SIZE[m[3]] = {"wide": "wide", "widest": "wide", "huge": "huge"}.get(m[1], "")
    return r


def explore(lls, gen, name, shard, shards, deadline, seed, opts):
    out = os.path.join(BUILD, "out", f"{name}.{shard}.{os.getpid()}.json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    left = max(5, deadline - time.time())
    cmd = [ENGINE]
    for l in lls:
        cmd += ["--ll", l]
    cmd += ["--entry", name, "--out", out, "--prefix", os.path.join(gen, "src"), "--seed", str(seed),
            "--max-secs", str(int(left)), "--shard", f"{shard}/{shards}"] + opts
    e = env()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)
        PROCS.add(p)
        try:
            so, se = p.communicate(timeout=left + 60)
        finally:
            PROCS.discard(p)
    except subprocess.TimeoutExpired:
        p.kill()
        return {"entry": name, "crash": "timeout"}
    if p.returncode != 0 or not os.path.exists(out):
        return {"entry": name, "crash": (se or so)[-600:] or f"exit {p.returncode}"}
    d = json.load(open(out))
    os.unlink(out)
    return d


PROCS = set()


def known_findings(prop):
    r = []
    try:
        for line in open(os.path.join(ROOT, "known-findings.txt")):
            m = re.match(r"known: property=(\w+) entry=(\w+) message=\"([^\"]*)\" (.*)", line)
            if m and m[1] == prop:
                r.append((m[2], m[3], m[4].strip()))
    except OSError:
        pass
    return r


RETRIES = 40
GAVE_UP = "the solver gave up on a query"


def reproduce(prop, entry, f):
    """Replays a finding on the real crate; what happened there, or None."""
    line = entry + " " + " ".join(f["values"])
    want = f["kind"]
    # the schedule is that of the sequential model or chosen by the solver: rayon itself may follow
    # another one
    for profile in ("release", "dev", "pool"):
        if want == "hang":
            r = replay_lines(prop, profile, [line], 20)[0]
            if r[0] == "hang":
                return profile, "hang", "does not end (20 s)"
            if r[0] in ("check", "panic", "no-panic"):
                return profile, r[0], r[1]
            continue
        # the real hashed collections iterate in a random order: several attempts
        rs = replay_lines(prop, profile, [line] * RETRIES, 60)
        for r in rs:
            if r[0] in ("check", "panic", "no-panic", "hang", "abort"):
                return profile, r[0], r[1]
    return None


def check(prop, tier):
    import checks
    info = checks.CHECKS.get(prop) or dict(bounds="")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = 780 if tier == "quick" else 6 * 3600
    deadline = T0 + budget
    opts = list(info.get("opts", []))
    build_engine()
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(build_ir, prop)
        b = ex.submit(build_replay, prop, "release")
        gen, lls = a.result()
        b.result()
    es = entries(prop, tier)
    if not es:
        raise CheckError("no entries")
    lls = {"": lls}
    for size in ("wide", "huge"):
        if any(SIZE[n] == size for n, _, _ in es):
            lls[size] = build_ir(prop, size)[1]
    log("built")
    known = known_findings(prop)
    jobs = [(n, i, s) for (n, s, _) in es for i in range(s)]
    results = {n: [] for (n, _, _) in es}
    violations, errors, undecided, known_hit = [], [], [], {}
    stop = False
    pool = ThreadPoolExecutor(JOBS)
    # sharded entries are the long ones
    jobs.sort(key=lambda j: -j[2])
    futs = {pool.submit(explore, lls[SIZE[n]], gen, n, i, s, deadline, seed, opts + (['--max-instr', '200000000'] if SIZE[n] == 'huge' else [])): (n, i, s) for (n, i, s) in jobs}
    handled = set()
    for fu in as_completed(futs):
        n, i, s = futs[fu]
        if fu.cancelled():
            continue
        r = fu.result()
        if stop:
            continue
        results[n].append(r)
        if "crash" in r:
            errors.append(f"{n}: {r['crash']}")
            continue
        for f in r["findings"]:
            key = (n, f["kind"], f["msg"])
            if key in handled:
                continue
            k = next((x for x in known if x[0] == n and x[1] == f["msg"]), None)
            got = reproduce(prop, n, f)
            if got is None:
                log("not reproduced:", n, f["kind"], f["msg"], f["inputs"])
                if sum(1 for g in r["findings"] if (g["kind"], g["msg"]) == (f["kind"], f["msg"])) == 1 or f is r["findings"][-1]:
                    # no end within the steps of the executor, but one on the processor: long, not endless
                    (undecided if f["kind"] == "hang" else errors).append(f"{n}: a counterexample does not reproduce: {f['kind']} {f['msg']} [{f['inputs']}]")
                continue
            handled.add(key)
            if k:
                known_hit[k] = f
                continue
            violations.append((n, f, got))
            stop = True
            break
        for e, c in r["errors"].items():
            (undecided if e == GAVE_UP or e.startswith("time limit") else errors).append(f"{n}: {e} (x{c})")
        if not r["complete"]:
            undecided.append(f"{n}: not finished within the time budget")
        if stop:
            for o in futs:
                o.cancel()
            for p in list(PROCS):
                try:
                    p.kill()
                except OSError:
                    pass
    pool.shutdown(wait=True)
    # a known finding may hide the rest of its entry: the others were explored in full
    if not stop:
        for n, rs in results.items():
            if any("crash" in r for r in rs) or not all(r["complete"] for r in rs) or any(r["errors"] for r in rs):
                continue
            merged = {}
            for r in rs:
                for k, v in r["reach"].items():
                    merged[k] = max(merged.get(k, 0), v)
            miss = sorted(k for k, v in merged.items() if not v)
            if miss and not any(r["findings"] for r in rs):
                p = subprocess.run([build_replay(prop, "release"), "search", n, str(seed), "100000"],
                                   stdout=subprocess.PIPE, text=True, env=env(RAYON_NUM_THREADS="1"), timeout=300)
                native = set(p.stdout.splitlines())
                for k in miss:
                    if k in native:
                        errors.append(f"{n}: found unreachable by the solver, reached natively: {k}")
                    else:
                        violations.append((n, {"kind": "unreachable", "msg": k, "values": [], "inputs": "no values lead there",
                                               "observed": []}, ("release", "unreachable", "100000 random native runs did not get there either")))
                        break
            bad = measures(prop, n, rs, seed)
            if bad and bad[0] == "error":
                errors.append(f"{n}: {bad[1]}")
            elif bad:
                violations.append((n, {"kind": "distribution", "msg": bad[1], "values": [], "inputs": "the words of the generator, uniform",
                                       "observed": []}, ("release", "distribution", bad[2])))
                break
            # the harness must have got to its end
            got = set(c for r in rs for c in r["covers"])
            if not got and not any(r["expected_panics"] or r.get("outcomes") for r in rs) and not any(r["findings"] for r in rs):
                errors.append(f"{n}: no path reaches the end of the harness")
    evidence(prop, tier, seed, info, es, results, violations, errors, undecided, known_hit)
    for k, f in known_hit.items():
        print(f"KNOWN-FINDING: property={prop} {k[2]}", flush=True)
    if violations:
        n, f, got = violations[0]
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{n}.json")
        json.dump({
            "property": prop, "entry": n, "kind": f["kind"], "message": f["msg"], "inputs": f["inputs"], "values": f["values"],
            "native": {"profile": got[0], "outcome": got[1], "message": got[2]},
            "replay": f"python3 {ROOT}/vp.py replay {prop} {path}",
        }, open(path, "w"), indent=1)
        log(f"{n}: {f['kind']}: {f['msg']}; inputs: {f['inputs']}; native: {got}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    # what could not be decided was not explored; there is none on the unchanged tree
    for e in undecided[:20]:
        log("UNDECIDED", e)
    if len(set(e.split(":")[0] for e in undecided)) * 2 > len(es):
        errors.append("most of the harnesses are undecided")
    if errors:
        for e in errors[:20]:
            log("ERROR", e)
        return 2
    log("held, except for what is undecided" if undecided else "held")
    return 0


def measures(prop, n, rs, seed):
    """The measure of the generator words leading to each outcome against the expected one."""
    from fractions import Fraction as F
    got, want = {}, {}
    for r in rs:
        for k, (a, b, c, d) in r.get("outcomes", {}).items():
            got[k] = got.get(k, F(0)) + F(a, b)
            want[k] = F(c, d)
    if not got:
        return None
    if sum(got.values()) != 1:
        return ("error", f"the outcomes measure {sum(got.values())}")
    if got == want:
        return None
    txt = "; ".join(f"outcome {k}: {got[k]} instead of {want[k]}" for k in sorted(got, key=int) if got[k] != want[k])
    runs = 400000
    p = subprocess.run([build_replay(prop, "release"), "measure", n, str(seed), str(runs)],
                       stdout=subprocess.PIPE, text=True, env=env(RAYON_NUM_THREADS="1"), timeout=300)
    nat = {}
    for line in p.stdout.splitlines():
        k, c = line.split()
        nat[k] = int(c)
    # the real crate must agree with the solver and disagree with the expectation
    def sigmas(exp):
        s = 0.0
        for k in set(nat) | set(exp):
            e = float(exp.get(k, 0))
            s = max(s, abs(nat.get(k, 0) - runs * e) / max(1.0, (runs * e * (1 - e)) ** 0.5))
        return s
    if sigmas(got) > 6 or (sum(want.values()) == 1 and sigmas(want) < 6):
        return ("error", f"distribution {txt}; natively {nat}")
    return ("violation", txt[:500], f"{runs} native runs: {nat}"[:500])


def evidence(prop, tier, seed, info, es, results, violations, errors, undecided, known_hit):
    tot = dict(paths=0, forks=0, steps=0, checks_solver=0, checks_folded=0, dropped=0, expected_panics=0)
    solver = dict(queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, model_hits=0, fp_queries=0, real_unsat=0, real_sat=0, time=0.0)
    funcs, lines, per_entry, msgs = set(), {}, [], {}
    samples = []
    outs = {}
    reach = 0
    for n, _, expr in es:
        rs = [r for r in results[n] if "crash" not in r]
        for r in rs:
            for k in tot:
                tot[k] += r[k]
            for k in solver:
                solver[k] += r["solver"].get(k, 0)
            funcs |= set(r["functions"])
            for f, l in r["lines"].items():
                lines.setdefault(f, set()).update(l)
            for k, v in r["checks"].items():
                msgs[k] = msgs.get(k, 0) + v
            reach += sum(1 for v in r["reach"].values() if v)
            for k, (a, b, _, _) in r.get("outcomes", {}).items():
                outs.setdefault(n, {})[k] = f"{a}/{b}" + (" + " + outs[n][k] if k in outs.get(n, {}) else "")
            for s in r["samples"]:
                samples.append((n, s))
        per_entry.append({"entry": n, "harness": expr, "paths": sum(r["paths"] for r in rs),
                          "complete": bool(rs) and all(r["complete"] for r in rs),
                          "seconds": round(sum(r["wall"] for r in rs), 2)})
    # replay sampled paths natively
    rnd = random.Random(seed)
    rnd.shuffle(samples)
    samples = samples[:400]
    validated, mismatch = 0, []
    shown = []
    if samples and not violations:
        try:
            # those with a schedule follow it in the thread pool's model
            rs = [None] * len(samples)
            for profile in ("release", "pool"):
                at = [i for i, (_, s) in enumerate(samples) if any(v.startswith("s") for v in s["values"]) == (profile == "pool")]
                if at:
                    got = replay_lines(prop, profile, [samples[i][0] + " " + " ".join(samples[i][1]["values"]) for i in at], 120)
                    for i, r in zip(at, got):
                        rs[i] = r
        except CheckError as e:
            rs = []
            errors.append(str(e))
        for (n, s), r in zip(samples, rs):
            want = [int(x) for x in s["observed"]]
            if s["kind"] == "ok":
                good = r[0] == "ok" and r[2] == want
            else:
                good = r[0] == "panics"
            if good:
                validated += 1
                if len(shown) < 5:
                    shown.append({"entry": n, "inputs": s["inputs"], "observed": s["observed"], "native": r[0]})
            else:
                mismatch.append({"entry": n, "inputs": s["inputs"], "predicted": s["observed"], "native": list(r)})
        if mismatch:
            log("samples that differ natively:", len(mismatch), "of", len(samples), json.dumps(mismatch[:3]))
        if len(mismatch) * 2 > len(samples):
            errors.append(f"{len(mismatch)} of {len(samples)} sampled paths behave differently natively")
    z = next((r["solver"]["version"] for rs in results.values() for r in rs if "crash" not in r), "?")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["expected_panics"] + tot["dropped"] + tot["forks"],
            "transitions": tot["steps"],
            "traces_validated_against_impl": validated,
            "samples": shown or [{"entry": n, "inputs": s["inputs"]} for n, s in samples[:3]] or ["none"],
            "paths_completed": tot["paths"] + tot["expected_panics"],
            "paths_forked": tot["forks"],
            "assertions_decided_by_solver": tot["checks_solver"],
            "assertions_folded": tot["checks_folded"],
            "assertion_messages": msgs,
            "reachability_goals_met": reach,
            "outcome_measures": outs,
            "solver": {k: (round(v, 2) if isinstance(v, float) else v) for k, v in solver.items()} | {"name": "z3 " + z},
            "functions_encoded": sorted(funcs),
            "source_lines_encoded": {f: len(l) for f, l in sorted(lines.items())},
            "entries": per_entry,
            "bounds": info["bounds"],
            "outside_the_bounds": info.get("outside", ""),
            "samples_replayed": len(samples), "samples_differing": len(mismatch),
            "errors": errors[:20],
            "undecided": undecided[:20],
            "exhaustive": not errors and not undecided and not violations,
        },
        "assumptions": info.get("assumptions", []) + checks_common(),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violations),
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    log(f"{len(es)} entries, {tot['paths']} paths, {solver['queries']} queries, {solver['time']:.1f} s solver, {validated}/{len(samples)} samples validated")


def checks_common():
    import checks
    return checks.COMMON


def replay(prop, path):
    d = json.load(open(path))
    got = reproduce(prop, d["entry"], d)
    print(got)
    return 1 if got else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    try:
        if a.cmd == "setup":
            build_engine()
            log("engine built")
            f = features()
            with ThreadPoolExecutor(2) as ex:
                x = ex.submit(build_ir, f[0])
                y = ex.submit(build_replay, f[0], "release")
                x.result(), y.result()
            log("caches warm")
            return 0
        if a.cmd == "check":
            return check(a.args[0], a.tier)
        if a.cmd == "replay":
            return replay(a.args[0], a.args[1])
        if a.cmd == "manifest":
            import checks
            checks.write_manifest()
            return 0
        print(__doc__)
        return 2
    except CheckError as e:
        log("ERROR", e)
        return 2
    except subprocess.TimeoutExpired as e:
        log("ERROR", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
