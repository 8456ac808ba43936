#!/usr/bin/env python3
"""Runs the runtime monitors of one property against /repo's current working tree.

usage: check.py <property> [quick|thorough] [--replay FILE] [--stage NAME]
exit 0: held on everything explored; 1: VIOLATION; 2: no verdict (build or harness error, inconclusive)
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import PROPS

TC = "nightly-2026-04-01"
MIRI_TC = "nightly"
TRIPLE = "x86_64-unknown-linux-gnu"
TARGET = os.path.join(HERE, "target")
MANIFEST = os.path.join(HERE, "harness", "Cargo.toml")


def base_env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO_", "RUST", "MIRI", "ASAN_", "TSAN_"))}
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUST_BACKTRACE="0")
    return e


def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


SAN_RE = re.compile(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|error: Undefined Behavior[^\n]*|"
                    r"error: memory leaked[^\n]*|Data race detected[^\n]*|unsafe precondition\(s\) violated[^\n]*|"
                    r"error: the evaluated program (?:deadlocked|aborted)[^\n]*|error: resource exhaustion[^\n]*)")


def run(cmd, env, timeout, cwd=HERE, mem_gb=None):
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=pre, text=True, errors="replace")
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, er = p.communicate()
        return None, o, er


def target_dir(st):
    kind = st.get("kind", "native")
    key = f"{kind}|{st.get('rustflags', '')}|{st.get('dev')}"
    return os.path.join(TARGET, hashlib.sha1(key.encode()).hexdigest()[:8] + "-" + kind)


def build(cfg, st):
    """Build the stage's monitor binary against /repo's working tree -> (rc, stderr)"""
    env = base_env()
    env["CARGO_TARGET_DIR"] = target_dir(st)
    rf = {"asan": "-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer",
          "tsan": "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"}.get(st.get("kind"), "")
    rf = (rf + " " + st.get("rustflags", "")).strip()
    if rf:
        env["RUSTFLAGS"] = rf
    cmd = ["cargo", "build", "--quiet", "--offline", "--manifest-path", MANIFEST, "--features", st["features"],
           "--bin", st.get("bin", cfg["bin"]), "--target", TRIPLE] + ([] if st.get("dev") else ["--release"])
    if st.get("kind") == "tsan":  # std itself must be instrumented, or its synchronisation is invisible: needs rust-src
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        cmd += ["-Zbuild-std"]
    os.makedirs(target_dir(st), exist_ok=True)
    # several stages share a target directory: build and take the binary away under one lock
    with open(os.path.join(target_dir(st), ".monitor-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, o, er = run(cmd, env, 800)
        if rc == 0:
            b = exe_path(cfg, st)
            src = os.path.join(target_dir(st), TRIPLE, "debug" if st.get("dev") else "release", st.get("bin", cfg["bin"]))
            os.makedirs(os.path.dirname(b), exist_ok=True)
            tmp = f"{b}.{os.getpid()}.{threading.get_ident()}"
            shutil.copy2(src, tmp)
            os.replace(tmp, b)
    return rc, er


def neon_sysroot(target, env):
    """Miri's standard library for AArch64, with the three horizontal additions it does not interpret
    (vaddv_f32, vaddvq_f32, vaddvq_f64) written out lane by lane, pairwise as the instruction adds them."""
    root = os.path.join(HERE, "target", "neon-" + target)
    lib, sysroot = os.path.join(root, "library"), os.path.join(root, "sysroot")
    env["MIRI_SYSROOT"] = sysroot
    if os.path.exists(os.path.join(root, "done")):
        return None
    src = os.path.join(subprocess.run(["rustc", "--print", "sysroot"], env=env, capture_output=True, text=True).stdout.strip(), "lib/rustlib/src/rust/library")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    shutil.copytree(src, lib, symlinks=True)
    p = os.path.join(lib, "stdarch/crates/core_arch/src/aarch64/neon/generated.rs")
    s = open(p).read()
    for f, v, e, n, body in (("vaddv_f32", "float32x2_t", "f32", 2, "l[0] + l[1]"), ("vaddvq_f32", "float32x4_t", "f32", 4, "(l[0] + l[1]) + (l[2] + l[3])"), ("vaddvq_f64", "float64x2_t", "f64", 2, "l[0] + l[1]")):
        head = f"pub fn {f}(a: {v}) -> {e} {{"
        i = s.find(head)
        if i < 0:
            return f + " not found in the library source"
        j = s.index("\n}\n", i)
        s = s[:i] + head + f"\n    let l: [{e}; {n}] = unsafe {{ crate::mem::transmute(a) }};\n    {body}" + s[j:]
    open(p, "w").write(s)
    e2 = dict(env, MIRI_LIB_SRC=lib)
    rc, o, er = run(["cargo", "miri", "setup", "--target", target], e2, 600)
    shutil.rmtree(lib, ignore_errors=True)
    if rc != 0:
        return er
    open(os.path.join(root, "done"), "w").close()
    return None


def build_viewer():
    """Build the repository's live viewer with the stand-ins for its window -> (rc, stderr, program)"""
    env = base_env()
    d = env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "viewer")
    os.makedirs(os.path.join(d, "bin"), exist_ok=True)
    exe = os.path.join(d, "bin", "viewer")
    with open(os.path.join(d, ".monitor-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, o, er = run(["cargo", "build", "--quiet", "--offline", "--release", "--manifest-path",
                         os.path.join(HERE, "viewer", "Cargo.toml")], env, 800)
        if rc == 0:
            tmp = f"{exe}.{os.getpid()}"
            shutil.copy2(os.path.join(d, "release", "viewer"), tmp)
            os.replace(tmp, exe)
    return rc, er, exe


def exe_path(cfg, st):
    h = hashlib.sha1(st["features"].encode()).hexdigest()[:8]
    return os.path.join(target_dir(st), "bin", st.get("bin", cfg["bin"]) + "-" + h)


def stage_run(prop, cfg, st, tier, seed, replay=None):
    """-> dict(name, status: ok|violation|inconclusive|skipped, result: {...}|None, notes, crash)"""
    name = st["name"]
    need = st.get("cpu")
    if need and not set(need) <= cpu_flags():
        return dict(name=name, status="skipped", note="cpu lacks " + ",".join(need))
    kind = st.get("kind", "native")
    features = st["features"]
    binname = st.get("bin", cfg["bin"])
    env = base_env()
    env["CARGO_TARGET_DIR"] = target_dir(st)
    args = ["--seed", str(seed), "--tier", tier, "--stage", name,
            "--scale", str(st.get("scale_thorough" if tier == "thorough" else "scale", st.get("scale", 1.0)))]
    for k in ("family", "threads"):
        if k in st:
            args += ["--" + k, str(st[k])]
    if replay:
        args += ["--replay", replay]
    out = os.path.join(HERE, "evidence", f".{prop}-{name}.{os.getpid()}.part")
    limit = st.get("timeout", 500 if tier == "quick" else 780)
    t0 = time.time()
    try:
        if kind == "miri":
            env["RUSTUP_TOOLCHAIN"] = MIRI_TC
            env["MIRIFLAGS"] = "-Zmiri-disable-isolation " + st.get("miriflags", "")
            cmd = ["cargo", "miri", "run", "--quiet", "--offline", "--manifest-path", MANIFEST, "--features", features,
                   "--bin", binname] + (["--target", st["target"]] if "target" in st else []) + ["--"] + args
            if st.get("target", "").startswith("aarch64"):
                err = neon_sysroot(st["target"], env)
                if err:
                    return dict(name=name, status="inconclusive", note="no interpreter for " + st["target"] + ": " + err[-1000:])
            rc, o, er = run(cmd, env, limit)
            if "could not compile" in er or "error: failed to" in er or "error: no such command" in er:
                return dict(name=name, status="inconclusive", note="miri build failed: " + er[-1500:])
            res = None
            m = re.search(r"@@RESULT@@(\{.*\})", o)
            if m:
                res = json.loads(m.group(1))
        else:
            rc, er = build(cfg, st)
            if rc != 0:
                return dict(name=name, status="inconclusive", note="build failed: " + er[-3000:])
            exe = exe_path(cfg, st)
            if st.get("viewer"):
                rc, er, env["AETHER_VIEWER"] = build_viewer()
                if rc != 0:
                    return dict(name=name, status="inconclusive", note="build of the viewer failed: " + er[-3000:])
            env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=0"
            env["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=0:report_signal_unsafe=0" + st.get("tsan", "")
            rc, o, er = run([exe, "--out", out] + args, env, limit, mem_gb=None if kind in ("asan", "tsan") else 20)
            res = None
            if os.path.exists(out):
                res = json.load(open(out))
    finally:
        try:
            os.unlink(out)
        except OSError:
            pass
    d = dict(name=name, result=res, wall=round(time.time() - t0, 2), rc=rc)
    san = SAN_RE.findall(er)
    if san:
        d.update(status="violation", crash=dict(key=f"{name}/sanitizer", detail=san[0] + "\n" + er[-6000:], reports=len(san)))
        return d
    if rc is None:
        d.update(status="inconclusive", note=f"stage {name} exceeded {limit}s")
        return d
    if res is None:
        if kind != "miri" and rc in (-signal.SIGSEGV, -signal.SIGILL, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGFPE):
            d.update(status="violation", crash=dict(key=f"{name}/crash-signal-{-rc}", detail=er[-6000:]))
        else:
            d.update(status="inconclusive", note=f"stage {name} ended with {rc}: {er[-2000:]}")
        return d
    if res["violations"]:
        d.update(status="violation")
    elif res["inconclusive"]:
        d.update(status="inconclusive", note="; ".join(res["inconclusive"]))
    elif rc != 0:
        d.update(status="inconclusive", note=f"stage {name} ended with {rc}: {er[-2000:]}")
    else:
        d.update(status="ok")
    return d


def known_findings():
    ks = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
            if m:
                ks.append(m.groups())
    return ks


def main():
    t0 = time.time()
    prop = sys.argv[1]
    rest = sys.argv[2:]
    tier = next((a for a in rest if a in ("quick", "thorough")), os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    stages = [s for s in cfg["stages"] if tier == "thorough" or not s.get("thorough_only")]
    replay = None
    if "--replay" in rest:
        rp = json.load(open(rest[rest.index("--replay") + 1]))
        seed, tier, replay = rp["seed"], rp["tier"], f'{rp["family"]}:{rp["idx"]}'
        stages = [s for s in cfg["stages"] if s["name"] == rp["stage"]]
    if "--stage" in rest:
        n = rest[rest.index("--stage") + 1]
        stages = [s for s in cfg["stages"] if s["name"] == n]
    with cf.ThreadPoolExecutor(cfg.get("parallel", 3)) as ex:
        rs = list(ex.map(lambda s: stage_run(prop, cfg, s, tier, seed, replay), stages))
    known = [(k, what) for p, k, what in known_findings() if p == prop]
    new, hit, notes = [], {}, []
    for r in rs:
        if r["status"] == "skipped":
            notes.append(r["note"])
        if r.get("crash"):
            c = r["crash"]
            new.append(dict(stage=r["name"], key=c["key"], family="", idx=0, detail=c["detail"]))
        for v in (r.get("result") or {}).get("violations", []):
            if any(v["key"] == k for k, _ in known):
                hit.setdefault(v["key"], v)
            else:
                new.append(dict(stage=r["name"], **v))
    # a stage whose only violations are known findings did run to its end
    bad = [r for r in rs if r["status"] == "inconclusive"]
    for r in rs:
        if r["status"] == "violation" and not r.get("crash") and r["result"]["inconclusive"]:
            bad.append(dict(name=r["name"], note="; ".join(r["result"]["inconclusive"])))
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=cfg["rule"], samples=[], oracle_checks=0, distinct_states=0,
               events={}, families={}, worst_error_over_tolerance={}, stages=[])
    for r in rs:
        x = r.get("result")
        cov["stages"].append(dict(name=r["name"], status=r["status"], wall_s=r.get("wall"), note=r.get("note", "")[:400],
                                  evaluations=(x or {}).get("evaluations", 0), slowest_case_cpu_ms=(x or {}).get("slowest_case_cpu_ms")))
        if not x:
            continue
        cov["evaluations"] += x["evaluations"]
        # the same case run in two build configurations is not a new distinct input
        cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], x["distinct"])
        cov["oracle_checks"] += x["checks"]
        cov["distinct_states"] = max(cov["distinct_states"], x["states"])
        for k, v in x["events"].items():
            cov["events"][k] = cov["events"].get(k, 0) + v
        for k, v in x["families"].items():
            cov["families"][f'{r["name"]}:{k}'] = v
        for k, v in x["ratios"].items():
            cov["worst_error_over_tolerance"][k] = max(v, cov["worst_error_over_tolerance"].get(k, 0))
        if len(cov["samples"]) < 24:
            cov["samples"] += x["samples"][:24 - len(cov["samples"])]
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get("level", "exploration"), coverage=cov,
              assumptions=cfg.get("assumptions", []) + notes, wall_s=round(time.time() - t0, 2), violations=len(new))
    if not replay:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k, what in known:
        if k in hit:
            print(f"KNOWN-FINDING: property={prop} {k} {what}")
        elif not replay and "--stage" not in rest:
            print(f"note: known finding {k} did not show in this run")
    if new:
        seen = set()
        for v in new:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            h = hashlib.sha1(f'{prop}{v["key"]}{seed}'.encode()).hexdigest()[:10]
            path = os.path.join(HERE, "replays", f"{prop}-{h}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, **v), f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f'  {v["stage"]} {v["key"]}: {v["detail"][:600]}')
            if len(seen) >= 12:
                break
        return 1
    if bad:
        for r in bad:
            print(f"INCONCLUSIVE property={prop} stage={r['name']}: {r.get('note','')}")
        return 2
    print(f"OK property={prop} tier={tier} seed={seed} evaluations={cov['evaluations']} distinct={cov['distinct_nontrivial']} "
          f"checks={cov['oracle_checks']} states={cov['distinct_states']} wall={ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
