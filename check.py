#!/usr/bin/env python3
"""Decide one property: build the executor and the harness bitcode from /repo's working tree, run
the property's harnesses symbolically, replay counterexamples natively, write the evidence file.

usage: check.py PROPERTY [--tier quick|thorough] [--harness NAME] [--keep-going]
exit:  0 held on everything explored, 1 violation (replayed on the real code), 2 no answer
"""
from concurrent.futures import ThreadPoolExecutor
import glob, json, os, re, shutil, subprocess, sys, tarfile, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.73", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
ENV["RUSTFLAGS"] = "--cfg nk_hooks"  # exposes private modules of /repo (see MANIFEST.json, hooks)


def run(cmd, cwd, log, timeout=1500):
    with open(log, "w") as f:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        tail = open(log).read()[-4000:]
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), tail))


def third_party(name, version):
    """A patched copy of a third-party crate (see DESIGN.md, models)."""
    dst = os.path.join(BUILD, "patched", name)
    if os.path.exists(os.path.join(dst, ".done")):
        return dst
    shutil.rmtree(dst, ignore_errors=True)
    home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    src = glob.glob("%s/registry/src/*/%s-%s" % (home, name, version))
    if src:
        shutil.copytree(src[0], dst)
    else:
        crate = glob.glob("%s/registry/cache/*/%s-%s.crate" % (home, name, version))[0]
        tmp = dst + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        with tarfile.open(crate) as t:
            t.extractall(tmp)
        os.rename(os.path.join(tmp, "%s-%s" % (name, version)), dst)
    return dst


def patch_bitcoin():
    d = third_party("bitcoin", "0.29.2")
    f = os.path.join(d, "src/blockdata/block.rs")
    s = open(f).read()
    a = "    pub fn block_hash(&self) -> BlockHash {\n        let mut engine"
    if "#[inline(never)]\n" + a not in s:
        assert s.count(a) == 1
        open(f, "w").write(s.replace(a, "    #[inline(never)]\n" + a))
    open(os.path.join(d, ".done"), "w").close()
    return d


def build_engine():
    run(["make", "OUT=" + BUILD + "/nksym"], VERIF + "/nksym", BUILD + "/nksym.log")


def build_bitcode():
    d = patch_bitcoin()
    tgt = BUILD + "/sym"
    crate = BUILD + "/harness-sym"
    # A copy of the manifest, so that the lock file of the patched build is its own.
    os.makedirs(crate, exist_ok=True)
    for f in ("Cargo.toml", "Cargo.lock"):
        s = open(VERIF + "/harness/" + f).read()
        if f == "Cargo.toml":
            s = s.replace('path = "src/', 'path = "%s/harness/src/' % VERIF)
            s = s.replace("[lib]\n", '[lib]\npath = "%s/harness/src/lib.rs"\n' % VERIF)
        if not os.path.exists(crate + "/" + f) or f == "Cargo.toml" and open(crate + "/" + f).read() != s:
            open(crate + "/" + f, "w").write(s)
    for f in glob.glob(tgt + "/sym/deps/nkh-*.bc"):
        os.unlink(f)
    for f in glob.glob(tgt + "/sym/.fingerprint/nkh-*"):
        shutil.rmtree(f, ignore_errors=True)
    run(["cargo", "rustc", "--config", 'patch.crates-io.bitcoin.path="%s"' % d, "--profile", "sym", "--lib",
         "--crate-type", "staticlib", "--offline", "--target-dir", tgt, "--", "--emit=llvm-bc"],
        crate, BUILD + "/sym.log")
    bcs = [f for f in glob.glob(tgt + "/sym/deps/nkh-*.bc") if ".rcgu." not in f]
    assert len(bcs) == 1, bcs
    os.replace(bcs[0], BUILD + "/harness.bc")


def build_native():
    run(["cargo", "build", "--offline", "--target-dir", BUILD + "/native", "--bin", "replay"],
        VERIF + "/harness", BUILD + "/native.log")


def build_all():
    os.makedirs(BUILD, exist_ok=True)
    errs = []

    def guard(f):
        def g():
            try:
                f()
            except Exception as e:  # noqa: BLE001
                errs.append(e)
        return threading.Thread(target=g)
    ts = [guard(f) for f in (build_engine, build_bitcode, build_native)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]


def native(harness, inputs, timeout=60, seed=0):
    """Run the harness natively on the real code. -> (verdict, output)"""
    scratch = tempfile.mkdtemp(prefix="scratch-", dir=BUILD)
    try:
        return native_in(harness, inputs, timeout, scratch, seed)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def native_seeds(harness, inputs):
    """Iteration order of hash maps depends on their seed and on block hashes, which are mined
    here: a counterexample may need another seed than the executor's. -> (verdict, output, seed)"""
    verdict, out = native(harness, inputs)
    if verdict in ("check", "panic", "timeout"):
        return verdict, out, 0
    with ThreadPoolExecutor(8) as ex:
        for seed, (v, o) in zip(range(1, 41), ex.map(lambda s: native(harness, inputs, seed=s), range(1, 41))):
            if v in ("check", "panic"):
                return v, o, seed
    return verdict, out, 0


def native_in(harness, inputs, timeout, scratch, seed=0):
    try:
        p = subprocess.run([BUILD + "/native/debug/replay", harness, ",".join(map(str, inputs))],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=scratch,
                           env=dict(os.environ, NK_SCRATCH=scratch, NK_SEED=str(seed)))
    except subprocess.TimeoutExpired:
        return "timeout", ""
    out = p.stdout.decode(errors="replace")
    if p.returncode == 0:
        return "held", out
    if p.returncode == 1 and re.search(r"CHECK \d+ FAILED", out):
        return "check", out
    if p.returncode in (101, -6, 134) or "panicked at" in out:
        return "panic", out
    return "other", out


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        build_all()
        return
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--harness") + 1] if "--harness" in a else None
    spec = PROPS[prop]
    t0 = time.time()
    known = [k for k in json.load(open(VERIF + "/known_findings.json"))["findings"] if k.get("property") == prop]
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/replays", exist_ok=True)
    try:
        if "--no-build" not in a:
            build_all()
    except Exception as e:  # noqa: BLE001
        print("no answer: %s" % e)
        sys.exit(2)
    t_build = time.time() - t0

    harnesses = spec["quick"] if tier == "quick" else spec.get("thorough", spec["quick"])
    tot = {k: 0 for k in ("paths", "pruned", "panics", "violations", "forks", "queries", "unsat", "sat", "unknown",
                          "checks", "checks_symbolic", "instructions", "sym_vars", "concretized")}
    solver_s = 0.0
    fns, samples, per, problems, viol, knownhit = set(), [], [], [], [], []
    validated = compared = 0
    for h in harnesses:
        name, opts = (h, {}) if isinstance(h, str) else h
        if only and name != only:
            continue
        out = os.path.join(BUILD, "out", name)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        limit = opts.get("t", 300 if tier == "quick" else 3000)
        maxv = 1 + 50 * len([k for k in known if k.get("harness") == name])
        cmd = [BUILD + "/nksym", "-o", out, "-j", "8", "-t", str(limit), "--max-violations", str(maxv),
               "--max-instr", str(opts.get("instr", 400000000)), BUILD + "/harness.bc", name]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            r = json.load(open(out + "/result.json"))
        except Exception:  # noqa: BLE001
            problems.append("%s: executor failed: %s" % (name, p.stdout.decode(errors="replace")[-500:]))
            continue
        log = [json.loads(x) for x in open(out + "/log.jsonl") if x.strip()]
        for k in tot:
            tot[k] += r[k]
        solver_s += r["solver_s"]
        fns.update(r["functions"])
        per.append({"harness": name, "bounds": spec.get("bounds", {}).get(name, ""), "paths": r["paths"], "queries": r["queries"],
                    "unsat": r["unsat"], "checks": r["checks"], "checks_symbolic": r["checks_symbolic"],
                    "solver_s": r["solver_s"], "wall_s": r["wall_s"], "covers": r["covers"]})
        # Violations: believed once they reproduce natively on the real code.
        for v in log:
            if v["kind"] in ("panic", "check") or (v["kind"] == "limit" and "instruction limit" in v.get("what", "")):
                k = next((k for k in known if k.get("harness") == name and k.get("kind") == v["kind"]
                          and k.get("what", "") in v["what"] and k.get("loc", "") in v.get("loc", "")), None)
                if k:
                    if k["id"] not in knownhit:
                        knownhit.append(k["id"])
                        print("KNOWN-FINDING: property=%s %s" % (prop, k["summary"]))
                    continue
                verdict, nout, seed = native_seeds(name, v["inputs"])
                if verdict in ("check", "panic") or (v["kind"] == "limit" and verdict == "timeout"):
                    path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, name))
                    json.dump({"property": prop, "harness": name, "violation": v, "native": verdict,
                               "native_output": nout[-4000:],
                               "replay_cmd": "NK_SCRATCH=$(mktemp -d) NK_SEED=%d %s/native/debug/replay %s %s" % (seed, BUILD, name, ",".join(map(str, v["inputs"])))},
                              open(path, "w"), indent=1)
                    viol.append((name, v, path))
                    break
                problems.append("%s: counterexample not reproduced natively (%s): %s at %s" % (name, verdict, v["what"], v.get("loc")))
            elif v["kind"] == "error":
                problems.append("%s: executor error: %s" % (name, v["what"][:300]))
            elif v["kind"] == "limit":
                problems.append("%s: %s" % (name, v["what"]))
        # Some of the explored paths, replayed natively: the executor's verdict has to agree.
        picked = [x for x in log if x["kind"] == "sample"][:opts.get("samples", 8)]
        with ThreadPoolExecutor(8) as ex:
            outcomes = list(ex.map(lambda x: native(name, x["inputs"]), picked))
        for v, (verdict, nout) in zip(picked, outcomes):
            compared += 1
            if verdict == "held":
                validated += 1
            elif verdict in ("check", "panic"):
                path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, name))
                json.dump({"property": prop, "harness": name, "violation": v, "native": verdict, "native_output": nout[-4000:]},
                          open(path, "w"), indent=1)
                viol.append((name, {"what": nout[-300:], "loc": "native replay"}, path))
            if len(samples) < 5:
                samples.append({"harness": name, "inputs": v["inputs"], "native": verdict})
        for c in opts.get("covers", []):
            if str(c) not in r["covers"] and not viol:
                problems.append("%s: marker %s never reached (vacuous)" % (name, c))
        if viol:
            break
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["pruned"], "transitions": tot["forks"],
            "traces_validated_against_impl": validated, "traces_compared": compared,
            "samples": samples,
            "explanation": "Bounded symbolic execution of the compiled code (LLVM IR of /repo, its dependencies and std, "
                           "regenerated on this run). states = completed symbolic paths, transitions = forks; every path "
                           "stands for all inputs satisfying its path condition; obligations are decided by z3 (QF_BV).",
            "solver": "z3", "queries": tot["queries"], "unsat": tot["unsat"], "sat": tot["sat"], "unknown": tot["unknown"],
            "solver_s": round(solver_s, 3), "obligations_checked": tot["checks"], "obligations_symbolic": tot["checks_symbolic"],
            "symbolic_variables": tot["sym_vars"], "instructions": tot["instructions"], "pruned_paths": tot["pruned"],
            "functions_encoded": sorted(fns), "harnesses": per, "build_s": round(t_build, 1),
            "exhaustive": not problems and not viol,
            "bounds": spec.get("bounds_text", ""), "outside_bounds": spec.get("outside", ""),
        },
        "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    if problems:
        ev["coverage"]["problems"] = problems
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    for p in per:
        print("%-22s paths=%d checks=%d queries=%d solver=%.1fs wall=%.1fs covers=%s" %
              (p["harness"], p["paths"], p["checks"], p["queries"], p["solver_s"], p["wall_s"], p["covers"]))
    if viol:
        name, v, path = viol[0]
        print("harness %s: %s at %s" % (name, v["what"], v.get("loc", "?")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if problems:
        for p in problems:
            print("no answer: " + p)
        sys.exit(2)
    print("property %s held (build %.0fs, total %.0fs)" % (prop, t_build, time.time() - t0))


if __name__ == "__main__":
    main()
