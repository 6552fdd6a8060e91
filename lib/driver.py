"""Build, run and judge the monitors of one property."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
import checks, targets

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
MEM, CPU, DEADLOCK = 77, 78, 79   # exits of the memory, CPU and deadlock monitors
HANG_CPU_S = 90            # CPU seconds spent inside one case before the driver calls it a hang


class Inconclusive(Exception):
    pass


def source_files():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "packages")):
        dirs[:] = sorted(d for d in dirs if d not in ("node_modules", "target", "dist", "tests", "test", ".turbo", "pkg"))
        for f in sorted(files):
            if f.endswith((".rs", ".ts", ".js", ".mjs", ".toml")):
                out.append(os.path.join(root, f))
    return out


def repo_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def dictionary():
    """Integer and string literals of the code under test: sizes and names worth trying."""
    ints, strs = set(), set()
    for f in source_files():
        if "/src/" not in f or f.endswith(".toml"):
            continue
        t = open(f, encoding="utf-8", errors="replace").read()
        for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:n|usize|u8|u16|u32|u64|i32|i64)?\b", t):
            try:
                v = int(m.group(1).replace("_", ""), 0) if m.group(1).lower().startswith("0x") else int(m.group(1).replace("_", ""))
            except ValueError:
                continue
            if v < 1 << 63:
                ints.add(v)
        for m in re.finditer(r"<<\s*(\d+)", t):
            if int(m.group(1)) < 63:
                ints.add(1 << int(m.group(1)))
        for m in re.finditer(r"(\d[\d_]*)\s*\*\s*(\d[\d_]*)(?:\s*\*\s*(\d[\d_]*))?", t):
            v = 1
            for g in m.groups():
                v *= int(g.replace("_", "")) if g else 1
            if v < 1 << 63:
                ints.add(v)
        for m in re.finditer(r"\"([^\"\\\n]{1,40})\"|'([^'\\\n]{2,40})'", t):
            strs.add(m.group(1) or m.group(2))
    return {"ints": sorted(ints)[:400], "strs": sorted(strs)[:2000]}


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


TRIPLE = "x86_64-unknown-linux-gnu"


def has_unsafe():
    """Rust sources of the tree that leave the safe language, where only a sanitizer sees a bad access."""
    out = []
    for f in source_files():
        if f.endswith(".rs") and "/src/" in f:
            t = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(f, encoding="utf-8", errors="replace").read(), flags=re.S)
            if re.search(r"\bunsafe\b(?!_code)", t):
                out.append(f)
    return out


def bin_dir(ws, asan):
    return os.path.join(TARGET, ws + "-asan", TRIPLE, "debug") if asan else os.path.join(TARGET, ws, "debug")


def build_rust(ws, env, asan=False):
    """Build workspace rust/<ws> into target/<ws>, or with AddressSanitizer into target/<ws>-asan."""
    e = dict(env, CARGO_TARGET_DIR=os.path.join(TARGET, ws + ("-asan" if asan else "")), CARGO_NET_OFFLINE="true")
    e.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "--locked"]
    if asan:
        e["RUSTFLAGS"] = "-Zsanitizer=address"
        cmd = ["cargo", "+nightly"] + cmd[1:] + ["--target", TRIPLE]
    p = run(cmd, cwd=os.path.join(VERIF, "rust", ws), env=e)
    if p.returncode != 0:
        raise Inconclusive("the monitors do not build against this tree:\n" + p.stdout[-6000:])


class Runner:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.env = dict(os.environ, VERIF_REPO_HASH=repo_hash(), VERIF_REPO=REPO, RUST_BACKTRACE="0")
        self.dict = os.path.join(scratch, "dict.json")
        json.dump(dictionary(), open(self.dict, "w"))
        self.built = {}

    def build(self, ws, asan=False):
        k = (ws, asan)
        if k not in self.built:
            try:
                build_rust(ws, self.env, asan)
                self.built[k] = None
            except Inconclusive as e:
                self.built[k] = e
        if self.built[k]:
            raise self.built[k]

    def command(self, comp):
        kind = comp["run"]
        asan = comp.get("asan", False)
        if kind == "part":
            self.build("part", asan)
            return [os.path.join(bin_dir("part", asan), "vmon"), self.prop]
        if kind == "full":
            self.build("full", asan)
            if comp.get("builds"):
                try:
                    self.env["VERIF_BUILDS"] = json.dumps(targets.builds(VERIF, self.env))
                except targets.Failed as e:
                    raise Inconclusive("the other builds of this tree fail:\n" + str(e))
            return [os.path.join(bin_dir("full", asan), "fmon"), self.prop]
        if kind == "js":
            if comp.get("full"):
                self.build("full")
            if comp.get("part"):
                self.build("part")
            return ["node", "--expose-gc", "--max-old-space-size=6000", "--stack-size=900", os.path.join(VERIF, "js", "main.mjs"), self.prop]
        raise AssertionError(kind)

    def execute(self, comp, only=None, tag=""):
        name = comp["name"]
        out = os.path.join(self.scratch, f"{name}{tag}.out.json")
        jr = os.path.join(self.scratch, f"{name}{tag}.journal")
        sc = os.path.join(self.scratch, f"{name}{tag}.d")
        os.makedirs(sc, exist_ok=True)
        os.chmod(sc, 0o755)
        open(jr, "w").close()
        cmd = self.command(comp) + ["--seed", str(self.seed), "--tier", "quick" if comp.get("asan") else self.tier, "--scratch", sc, "--out", out, "--journal", jr, "--dict", self.dict]
        cmd += [x.replace("@SCRATCH@", self.scratch) for x in comp.get("args", [])]
        asan = comp.get("asan", False)
        env = dict(self.env, FULL_BIN=bin_dir("full", asan), PART_BIN=bin_dir("part", asan), VERIF_DIR=VERIF)
        if asan:
            # A report ends the process by SIGABRT, which every monitor takes for the crash it is.
            env.update(VERIF_ASAN="1", ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:disable_coredump=1")
        if only:
            cmd += ["--only", only]
        limit = comp.get("wall", 500) if self.tier == "quick" else comp.get("wall_thorough", 3600)
        log = open(os.path.join(self.scratch, f"{name}{tag}.log"), "w+", errors="replace")
        t0 = time.time()
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=sc, start_new_session=True)
        why, last, cpu_at = None, None, 0.0
        while p.poll() is None:
            time.sleep(0.05)
            if time.time() - t0 > limit:
                why = "wall"
            else:
                try:
                    j = open(jr, errors="replace").read().strip()
                    c = cpu_of(p.pid)
                    if j != last:
                        last, cpu_at = j, c
                    elif j.startswith("case") and c - cpu_at > HANG_CPU_S:
                        why = "hang"
                except OSError:
                    pass
            if why:
                kill_group(p)
                break
        kill_group(p)
        log.seek(0)
        text = log.read()[-8000:]
        log.close()
        j = open(jr, errors="replace").read().strip()
        case = j[5:].strip() if j.startswith("case ") else None
        res = None
        if p.returncode == 0 and os.path.exists(out):
            res = json.load(open(out))
        return {"rc": p.returncode, "why": why, "case": case, "log": text, "res": res, "wall": time.time() - t0, "cmd": cmd}


def cpu_of(pid):
    with open(f"/proc/{pid}/stat") as f:
        s = f.read().rsplit(")", 1)[1].split()
    return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def abnormal(r):
    if r["why"] == "hang":
        return "does not terminate (hang)"
    if r["rc"] == MEM:
        return "uses memory out of proportion to its input: " + (re.findall(r"MEMORY-MONITOR.*", r["log"]) or ["?"])[-1]
    if r["rc"] == CPU:
        return "does not terminate: " + (re.findall(r"CPU-MONITOR.*", r["log"]) or ["?"])[-1]
    if r["rc"] == DEADLOCK:
        return "does not terminate: " + (re.findall(r"DEADLOCK-MONITOR.*", r["log"]) or ["?"])[-1]
    if r["rc"] is not None and r["rc"] < 0 and r["rc"] != -signal.SIGKILL and r["why"] is None:
        return f"crashed the process with signal {-r['rc']}"
    if r["rc"] == 134:
        return "aborted the process"
    return None


def known():
    """known_findings.txt: 'finding: property=<id> id=<slug> <text>' and 'fixed: property=<id> <commit> <text>'."""
    out = {}
    for l in open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8"):
        m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
        if m:
            out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def main(argv):
    if argv[0] == "--build":
        env = dict(os.environ, VERIF_REPO_HASH=repo_hash())
        for ws in sorted(os.listdir(os.path.join(VERIF, "rust"))):
            build_rust(ws, env)
        targets.builds(VERIF, env)
        return 0
    prop = argv[0]
    spec = checks.CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    only_comp, only_case = os.environ.get("VERIF_COMPONENT"), None
    if "--replay" in argv:
        # The case of a replay file, alone: same component, workload, seed and tier.
        d = json.load(open(argv[argv.index("--replay") + 1]))
        seed, tier, only_comp, only_case = d["seed"], d["tier"], d["violation"]["component"], d["violation"].get("case")
    t0 = time.time()
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    os.chmod(scratch, 0o755)
    viols, runs, bad = [], [], []
    try:
        rn = Runner(prop, tier, seed, scratch)
        comps = list(spec["components"])
        if tier == "thorough" or (prop in checks.ASAN and has_unsafe()):
            comps += [dict(c, name=c["name"] + "-asan", asan=True, wall_thorough=1800) for c in comps if c["run"] in ("part", "full")]
        for comp in comps:
            if only_comp and comp["name"] != only_comp:
                continue
            try:
                r = rn.execute(comp, only=only_case)
            except Inconclusive as e:
                # The other components may still judge this tree.
                bad.append(f"{comp['name']}: {e}")
                continue
            a = abnormal(r)
            if a:
                # Confirm on the journalled case alone.
                again = rn.execute(comp, only=r["case"], tag="-again") if r["case"] else None
                # What depends on how threads meet may take several attempts.
                for n in range(comp.get("attempts", 1) - 1):
                    if again and not abnormal(again):
                        again = rn.execute(comp, only=r["case"], tag=f"-again{n}")
                if again and abnormal(again):
                    viols.append({"component": comp["name"], "case": r["case"], "message": f"the code under test {a}", "input": None, "detail": {"log": r["log"][-1500:], "confirmed": abnormal(again)}})
                else:
                    bad.append(f"{comp['name']}: ended abnormally ({a}) at {r['case']} and not again on that case alone\n{r['log'][-2000:]}")
                continue
            if r["res"] is None:
                bad.append(f"{comp['name']}: no result (exit {r['rc']}, {r['why']}, at {r['case']})\n{r['log'][-4000:]}")
                continue
            res = r["res"]
            runs.append((comp["name"], res))
            for v in res["violations"]:
                viols.append(dict(v, component=comp["name"]))
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    kf = known()
    fresh, old = [], {}
    for v in viols:
        k = (prop, v.get("finding"))
        if v.get("finding") and k in kf:
            old.setdefault(k, v)
        else:
            fresh.append(v)
    wall = time.time() - t0
    if not only_case:
        write_evidence(prop, spec, tier, seed, runs, fresh, old, wall, bad)
    for k, v in old.items():
        print(f"KNOWN-FINDING: property={prop} {kf[k]}")
    for n, v in enumerate(fresh[:5]):
        if only_case:
            print(f"VIOLATION property={prop} replay={argv[argv.index('--replay') + 1]}\n  {v['component']} {v.get('case')}: {v['message'][:600]}\n  {json.dumps(v.get('detail'))[:900]}")
            continue
        path = os.path.join(EVID, "replay", f"{prop}-{n}.json")
        json.dump({"property": prop, "seed": seed, "tier": tier, "violation": v,
                   "replay": f"bin/check {prop} --replay {path}"}, open(path, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['component']} {v.get('case')}: {v['message'][:600]}")
        print("  " + json.dumps(v.get("detail"))[:900])
    if fresh:
        return 1
    if bad:
        print("INCONCLUSIVE " + "\n".join(bad))
        return 2
    ev = sum(r["evaluations"] for _, r in runs)
    print(f"OK property={prop} tier={tier} seed={seed} evaluations={ev} distinct={sum(r['distinct'] for _, r in runs)} wall={wall:.1f}s")
    return 0


def write_evidence(prop, spec, tier, seed, runs, fresh, old, wall, bad):
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for _, r in runs),
            "distinct_nontrivial": sum(r["distinct"] for _, r in runs),
            "rule": spec["rule"],
            "samples": [dict(s, component=n) for n, r in runs for s in r["samples"]][:16],
            "observed": {n: r["counters"] for n, r in runs},
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    if old:
        e["coverage"]["known_findings_seen"] = [k[1] for k in old]
    if bad:
        e["coverage"]["inconclusive"] = bad
    tmp = os.path.join(EVID, f".{prop}.tmp")
    json.dump(e, open(tmp, "w"), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))
