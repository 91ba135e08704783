#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property with the symbolic executor.

Compiles the property's harnesses from /repo's current headers to LLVM bitcode, executes every
entry symbolically (engine/symx), replays each counterexample on a native build of the same
harness, and reports. Exit 0: held within the bounds. Exit 1: VIOLATION line printed.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, concurrent.futures as cf
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("REPO", "/repo"))
ENGINE = VERIF / "engine"
sys.path.insert(0, str(VERIF))
from checks import CHECKS  # noqa: E402

BUILD = Path(os.environ.get("SYMX_BUILD", str(ENGINE / "build")))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
DEFS = ["-DSVS_VERSION_MAJOR=0", "-DSVS_VERSION_MINOR=0", "-DSVS_VERSION_PATCH=4", "-DSVS_HAVE_MKL=0", "-DSVS_ENABLE_NUMA=0", "-DSVS_INITIALIZE_LOGGER=1",
        "-DSVS_CHECK_BOUNDS=1", "-D_GLIBCXX_ASSERTIONS", "-DFMT_SHARED"]
INC = [f"-I{ENGINE}", f"-I{VERIF}/harness", f"-I{REPO}/include", "-I/opt/vp/deps/tomlplusplus/include", f"-I{REPO}"]


def sh(cmd, timeout=None, cwd=None, env=None, mem_gb=None):
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=pre, cwd=cwd, env=env)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -999, out


def ensure_engine():
    exe = BUILD / "symx"
    srcs = [ENGINE / f for f in ("symx.cpp", "exec.inc", "expr.h", "solver.h")]
    if not exe.exists() or any(s.stat().st_mtime > exe.stat().st_mtime for s in srcs):
        BUILD.mkdir(parents=True, exist_ok=True)
        rc, out = sh(["make", "-C", str(ENGINE), f"OUT={BUILD}"], timeout=1200)
        if rc != 0:
            print(out)
            print("engine build failed")
            sys.exit(2)
    return exe


def ensure_rt():
    rt = BUILD / "rt.bc"
    if not rt.exists() or rt.stat().st_mtime < (ENGINE / "rt.cpp").stat().st_mtime:
        rc, out = sh([str(ENGINE / "cc.sh"), "--rt-only", "x", str(BUILD)], timeout=300, env=dict(os.environ, REPO=str(REPO)))
        if rc != 0:
            print(out)
            sys.exit(2)
    return rt


class Unit:
    """One harness file compiled with one set of flags; several entries."""

    def __init__(self, u, tier):
        self.file = u["file"]
        self.flags = list(u.get("flags", [])) + list(u.get(tier + "_flags", []))
        self.native_flags = u.get("native_flags", u.get("flags", [])) + list(u.get(tier + "_flags", []))
        self.entries = u["entries"]
        self.opts = list(u.get("opts", [])) + list(u.get(tier + "_opts", []))
        self.reach = u.get("reach", {})
        self.concurrent = u.get("concurrent", False)
        self.uninit_replay = u.get("uninit_replay", True)
        self.bc = None

    def key(self):
        return hashlib.sha1(" ".join(self.flags + self.native_flags).encode()).hexdigest()[:8]

    def runs_here(self):
        """Does this CPU have the instructions the unit's flags allow?"""
        need = []
        for f in self.native_flags:
            need += {"-march=x86-64-v3": ["avx2", "f16c", "fma"], "-march=x86-64-v4": ["avx512f", "avx512bw", "avx512vl"], "-mavx512vnni": ["avx512_vnni"]}.get(f, [])
        if not need:
            return True
        m = re.search(r"^flags\s*:(.*)$", Path("/proc/cpuinfo").read_text(), re.M)
        have = set(m.group(1).split()) if m else set()
        return all(n in have for n in need)


def native_build(u, entry, work, kind):
    src = VERIF / "harness" / u.file
    tag = re.sub(r"\W", "_", u.file) + "_" + u.key() + "_" + entry + "_" + kind
    exe = work / ("nat_" + tag)
    if exe.exists():
        return exe
    san = {"asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], "plain": ["-O2"], "vg": ["-O1"], "tsan": ["-O1", "-fsanitize=thread"]}[kind]
    fl = [f for f in u.native_flags]
    if kind == "vg":
        fl = [f for f in fl if not f.startswith("-march") and not f.startswith("-mavx")]
    march = [] if any(f.startswith("-march") for f in fl) else []
    cmd = ["clang++-18", "-std=c++20", "-g1", "-w", "-fno-strict-aliasing", "-ffp-contract=off", "-fsized-deallocation"] + san + march + INC + DEFS + fl + [f"-DSYMX_ENTRY={entry}", str(src), str(ENGINE / "native.cpp"), "-o", str(exe), "-lfmt", "-lspdlog", "-lpthread"]
    rc, out = sh(cmd, timeout=400)
    if rc != 0:
        (work / ("nat_" + tag + ".log")).write_text(out)
        return None
    return exe


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, v in inputs:
            f.write(f"{n}\t{v}\n")


def replay(u, entry, err, work, idx):
    """Returns (confirmed, how)."""
    inp = work / f"cex_{u.key()}_{entry}_{idx}.in"
    write_inputs(inp, err["inputs"])
    kind = err["kind"]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:new_delete_type_mismatch=1:allocator_may_return_null=1")
    if not u.runs_here():
        return True, "counterexample of the engine; this CPU lacks the instructions of the configuration, so it was not run natively"
    if u.concurrent:
        # schedules cannot be forced natively; the engine's own deterministic schedule is the witness.
        exe = native_build(u, entry, work, "tsan")
        if exe:
            for _ in range(40):
                rc, out = sh([str(exe), str(inp)], timeout=20, env=dict(os.environ, TSAN_OPTIONS="exitcode=98"))
                if rc not in (0, 77, 78):
                    return True, f"native ThreadSanitizer/stress run exit {rc}: {out[-1500:]}"
        return True, "schedule found by the engine on the compiled code (not forced natively)"
    if kind == "uninit":
        exe = native_build(u, entry, work, "vg")
        if not exe:
            return None, "native build failed"
        rc, out = sh(["valgrind", "-q", "--error-exitcode=97", str(exe), str(inp)], timeout=300)
        if rc == 97 or rc == 1:
            return True, f"valgrind: {out[-1500:]}"
        return False, f"valgrind exit {rc}: {out[-600:]}"
    exe = native_build(u, entry, work, "asan")
    if not exe:
        return None, "native build failed"
    rc, out = sh([str(exe), str(inp)], timeout=30, env=env)
    if rc == -999:
        return (kind == "hang"), "native run did not terminate in 30 s"
    if rc in (77, 78):
        return False, f"replay left the recorded path: {out[-500:]}"
    if rc != 0:
        return True, f"native exit {rc}: {out[-1500:]}"
    return False, "native run passed"


def main():
    pid = sys.argv[1]
    if pid == "--warm":
        ensure_engine()
        print(ensure_rt())
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    keep = os.environ.get("SYMX_KEEP")
    spec = CHECKS[pid]
    t0 = time.time()
    exe = ensure_engine()
    work = Path(tempfile.mkdtemp(prefix=f"symx_{pid}_"))
    try:
        rc = run(pid, tier, spec, exe, work, t0)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
    sys.exit(rc)


def run(pid, tier, spec, exe, work, t0):
    units = [Unit(u, tier) for u in spec["units"] if tier in u.get("tiers", ("quick", "thorough"))]
    only = os.environ.get("SYMX_ONLY")
    budget = spec.get("time", {}).get(tier, 240 if tier == "quick" else 1500)
    # --- compile
    def comp(iu):
        i, u = iu
        bc = work / f"u{i}.bc"
        cmd = [str(ENGINE / "cc.sh"), str(VERIF / "harness" / u.file), str(bc), str(work)] + u.flags
        rc, out = sh(cmd, timeout=400, env=dict(os.environ, REPO=str(REPO)))
        return u, bc, rc, out
    # runtime bitcode first (shared, independent of /repo)
    shutil.copy(ensure_rt(), work / "rt.bc")
    with cf.ThreadPoolExecutor(8) as ex:
        for u, bc, rc, out in ex.map(comp, enumerate(units)):
            if rc != 0:
                print(out[-6000:])
                print(f"harness {u.file} does not compile against the current tree; property {pid} not decided")
                return 2
            u.bc = bc
    tc = time.time() - t0
    jobs = []
    for u in units:
        for e in u.entries:
            opts = []
            if isinstance(e, (tuple, list)):
                e, opts = e[0], list(e[1])
            if only and only not in e:
                continue
            jobs.append((u, e, opts))
    rounds = max(1.0, len(jobs) / 8.0)
    per = max(20.0, budget / rounds) if len(jobs) > 8 else budget
    per = min(per, budget)

    # --- known findings
    kf = json.loads((VERIF / "known_findings.json").read_text())
    known = [k for k in kf.get("known", []) if k["property"] == pid]
    def known_of(e, err):
        for k in known:
            if re.search(k.get("entry", ""), e) and re.search(k["match"], f"{err['kind']}|{err['msg']}|{err['loc']}|{' '.join(err['stack'])}"):
                return k
        return None
    deadline = [time.time() + budget]

    def one(j):
        u, e, opts = j
        outf = work / f"{u.bc.stem}_{e}.json"
        samples = "--samples=6"
        left = deadline[0] - time.time()
        mine = max(5.0, min(per, left))
        cmd = [str(exe), str(u.bc), f"--entry={e}", f"--out={outf}", f"--time={mine}", f"--seed={SEED}", samples] + u.opts + opts
        rc, out = sh(cmd, timeout=mine + 120, mem_gb=12)
        try:
            r = json.loads(outf.read_text())
        except Exception:
            r = None
        if r and any(known_of(e, x) is None for x in r["errors"]):
            deadline[0] = min(deadline[0], time.time() + 30)  # a violation is known: finish soon
        return u, e, r, out, rc
    results = []
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, jobs):
            results.append(r)
    violations, known_hit, unconfirmed, notes = [], {}, [], []
    tot = dict(states=0, transitions=0, paths=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, asserts=0, asserts_symbolic=0, unsupported=0, undecided=0, instructions=0)
    functions = set()
    entries_ev = []
    for u, e, r, out, rc in results:
        if r is None:
            notes.append(f"{e}: engine ended abnormally (rc {rc}): {out[-300:]}")
            entries_ev.append(dict(entry=e, ok=False))
            continue
        tot["paths"] += int(r["paths"]); tot["states"] += int(r["states"]); tot["transitions"] += int(r["forks"]) + int(r["asserts"]) + int(r["queries"])
        for k in ("queries", "sat", "unsat", "unknown", "asserts", "asserts_symbolic", "unsupported", "undecided", "instructions"):
            tot[k] += int(r[k])
        tot["solver_s"] += r["solver_s"]
        for f in r["functions"]:
            if "svs::" in f:
                functions.add(re.sub(r"<.*", "", f.split("(")[0])[:120])
        missing = [l for l in u.reach.get(e, []) if not r["reach"].get(l)]
        ev = dict(entry=e, file=u.file, flags=u.flags, paths=int(r["paths"]), states=int(r["states"]), queries=int(r["queries"]), asserts=int(r["asserts"]), solver_s=round(r["solver_s"], 2), max_query_s=round(r["max_query_s"], 2), wall_s=round(r["wall_s"], 2), exhausted=not r["incomplete"], reach=r["reach"])
        if r["incomplete"]:
            ev["incomplete_why"] = r["incomplete_why"]; notes.append(f"{e}: not exhausted ({r['incomplete_why']})")
        if r["unsupported"]:
            ev["unsupported"] = r["unsupported_msgs"]; notes.append(f"{e}: {int(r['unsupported'])} paths ended at unmodelled operations {list(r['unsupported_msgs'])[:2]}")
        if missing and not r["errors"]:
            ev["vacuous_labels"] = missing; notes.append(f"{e}: reachability labels not hit: {missing}")
        entries_ev.append(ev)
    # --- replay
    nval = 0
    cex = 0
    for u, e, r, out, rc in results:
        if r is None:
            continue
        if len(violations) >= 3:
            break
        for i, err in enumerate(r["errors"][:6]):
            hit = known_of(e, err)
            if hit:
                known_hit[hit["what"]] = known_hit.get(hit["what"], 0) + 1
                continue
            ok, how = replay(u, e, err, work, i)
            cex += 1
            rec = dict(entry=e, file=u.file, **err, replay=how)
            if ok:
                nval += 1
                violations.append(rec)
            else:
                unconfirmed.append(rec)
            if len(violations) >= 3:
                break
    # --- validate sampled paths natively
    samples = []
    mismatches = []
    if not violations and os.environ.get("SYMX_NOVALID") is None:
        def val(x):
            u, e, r = x
            if not r["samples"] or u.concurrent or not u.runs_here():
                return e, []
            nb = native_build(u, e, work, "plain")
            if not nb:
                return e, [("build", None)]
            res = []
            for i, s in enumerate(r["samples"]):
                inp = work / f"s_{u.key()}_{e}_{i}.in"
                write_inputs(inp, s["inputs"])
                rc, out = sh([str(nb), str(inp)], timeout=20)
                obs = re.findall(r"^OBS (\S+) (\d+)$", out, re.M)
                good = rc == 0 and [(a, int(b)) for a, b in obs] == [(a, int(b)) for a, b in s["obs"]]
                res.append((good, dict(entry=e, inputs=s["inputs"][:12], observed=s["obs"][:12], native_exit=rc, native=obs[:12] if not good else "same", tail="" if good else out[-300:])))
            return e, res
        # one entry per harness file is validated in the quick tier
        seen, pick = set(), []
        for u, e, r, out, rc in results:
            if r is None:
                continue
            if tier == "quick" and (u.file, tuple(u.flags)) in seen:
                continue
            seen.add((u.file, tuple(u.flags)))
            pick.append((u, e, r))
        with cf.ThreadPoolExecutor(8) as ex:
            for e, res in ex.map(val, pick):
                for good, s in res:
                    if good is True:
                        nval += 1
                        if len(samples) < 12:
                            samples.append(s)
                    elif s is not None:
                        mismatches.append(s)
    for u, e, r, out, rc in results:
        if r and len(samples) < 12 and r["samples"]:
            samples.append(dict(entry=e, inputs=r["samples"][0]["inputs"][:12], observed=r["samples"][0]["obs"][:12]))
    for m in mismatches:
        notes.append(f"native run differs from the encoding on a sampled path: {json.dumps(m)[:600]}")
    wall = time.time() - t0
    cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=nval, samples=samples or [dict(note="no completed path")],
               paths=tot["paths"], instructions=tot["instructions"], queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"], solver_s=round(tot["solver_s"], 2),
               asserts_checked=tot["asserts"], asserts_symbolic=tot["asserts_symbolic"], counterexamples_replayed=cex, functions_encoded=sorted(functions)[:400], functions_encoded_count=len(functions), bounds=spec.get("bounds", {}).get(tier, spec.get("bounds_text", "")), outside=spec.get("outside", ""), entries=entries_ev, notes=notes, unconfirmed=[{k: v for k, v in x.items() if k != "stack"} for x in unconfirmed][:6],
               exhaustive=all(x.get("exhausted") for x in entries_ev) and not notes)
    ev = dict(property=pid, tier=tier, seed=SEED, level=spec.get("level", "model_checking"), coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=len(violations))
    (VERIF / "evidence").mkdir(exist_ok=True)
    tmp = VERIF / "evidence" / f".{pid}.tmp"
    tmp.write_text(json.dumps(ev, indent=1))
    tmp.rename(VERIF / "evidence" / f"{pid}.json")
    for n in notes:
        print("NOTE", n)
    for x in unconfirmed:
        print("UNCONFIRMED", x["entry"], x["kind"], x["msg"], x["loc"], "->", x["replay"][:300])
    for k in known:
        if k["what"] in known_hit:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} {tier}: {len(results)} entries, {tot['paths']} paths, {tot['queries']} queries, solver {tot['solver_s']:.1f}s, {nval} native validations, compile {tc:.1f}s, wall {wall:.1f}s")
    if violations:
        rd = VERIF / "evidence" / f"{pid}.violation.json"
        rd.write_text(json.dumps(violations, indent=1))
        for v in violations:
            print(f"  {v['kind']}: {v['msg']} at {v['loc']} [{v['entry']}] inputs {v['inputs'][:40]}")
            print("   ", v["replay"][:800].replace("\n", "\n    "))
        print(f"VIOLATION property={pid} replay={rd}")
        return 1
    return 0


if __name__ == "__main__":
    main()
