#!/usr/bin/env python3
"""check.py ID [--replay FILE] [--keep] [--thorough]   or   check.py --setup

Decides one property: builds the test binary of its package from the current
tree of /repo, runs it in several shards with seeds derived from VERIF_SEED,
merges what they covered into evidence/ID.json.

exit 0  the property held on everything explored
exit 1  VIOLATION property=ID replay=PATH on stdout
exit 2  the check itself failed (no verdict)
"""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
GO_DIRS = ["/opt/veriftools/go1.27.3/bin"]

# id: package, race detector, shards (quick, thorough), time budget per shard in
# seconds (quick, thorough), scale of the case counts (quick, thorough), server needed
T = dict
CHECKS = {
    "C01": T(pkg="core"), "C02": T(pkg="core"), "C03": T(pkg="core", budget=(30, 400)), "C04": T(pkg="core", budget=(25, 400)),
    "C05": T(pkg="core", budget=(30, 400)), "C06": T(pkg="core", budget=(30, 400)), "C07": T(pkg="core", budget=(30, 400)), "C08": T(pkg="core", budget=(30, 400)),
    "C12": T(pkg="core"), "C22": T(pkg="core", race=True), "C23": T(pkg="core"), "C24": T(pkg="core"),
    "C25": T(pkg="core"), "C26": T(pkg="core"), "C28": T(pkg="core"), "C29": T(pkg="core", race=True),
    "C30": T(pkg="core", budget=(25, 400)), "C31": T(pkg="core"),
    "C18": T(pkg="conc", race=True), "C19": T(pkg="conc", race=True), "C20": T(pkg="conc", race=True), "C21": T(pkg="conc", race=True),
    "C09": T(pkg="sys", server=True, budget=(25, 400)), "C10": T(pkg="sys", server=True, budget=(66, 400)),
    "C11": T(pkg="sys", server=True, budget=(25, 400)), "C13": T(pkg="sys", server=True, budget=(36, 400)),
    "C14": T(pkg="sys", server=True, budget=(66, 400)), "C15": T(pkg="sys", server=True, budget=(48, 400)),
    "C16": T(pkg="sys", server=True, budget=(25, 400)), "C17": T(pkg="sys", server=True, budget=(25, 400)),
    "C27": T(pkg="cli", cli=True, shards=(1, 1), budget=(25, 400)),
}
DEFAULT = T(race=False, shards=(8, 8), budget=(14, 400), scale=(1.0, 40.0), server=False, cli=False)

ASSUMPTIONS = {
    "core": ["the Go toolchain, runtime and standard library are correct", "the reference models and the independent codec in /verif/harness are right"],
    "conc": ["the Go toolchain and runtime are correct, testing/synctest included: virtual time advances only when every goroutine of the bubble is blocked", "schedules are sampled, not enumerated"],
    "sys": ["the kernel's loopback TCP and file system behave as documented", "schedules of the server process are sampled, not enumerated", "a reply that does not come within the generous deadline (30 s and more) will never come"],
    "cli": ["the kernel's loopback TCP behaves as documented", "a reply that does not come within the generous deadline will never come"],
}


def go_env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    path = [d for d in GO_DIRS if os.path.isdir(d)]
    env["PATH"] = ":".join(path + [env.get("PATH", "/usr/bin:/bin")])
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", GOWORK="off")
    return env


def run_build(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("BUILD FAILED: " + " ".join(cmd))
        print(p.stdout[-6000:])
        sys.exit(2)


def build(spec, scratch):
    """Builds the test binary (and what it needs) into scratch."""
    env = go_env()
    # a private copy of the module, so that nothing in /verif changes
    mod = os.path.join(scratch, "go.mod")
    shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(scratch, "go.sum"))
    out = os.path.join(scratch, "check.test")
    cmd = ["go", "test", "-modfile", mod, "-vet=off", "-c", "-o", out]
    if spec["race"]:
        cmd.append("-race")
    cmd.append("./props/" + spec["pkg"])
    run_build(cmd, env, HARNESS)
    binaries = {}
    if spec["server"]:
        binaries["VERIF_VSERVER"] = os.path.join(scratch, "vserver")
        run_build(["go", "build", "-modfile", mod, "-o", binaries["VERIF_VSERVER"], "./vserver"], env, HARNESS)
    if spec["cli"]:
        rmod = os.path.join(scratch, "repo.mod")
        shutil.copy(REPO + "/go.mod", rmod)
        shutil.copy(REPO + "/go.sum", os.path.join(scratch, "repo.sum"))
        for var, pkg in (("VERIF_CLIENT", "./cmd/client"), ("VERIF_SERVER", "./cmd/server")):
            binaries[var] = os.path.join(scratch, os.path.basename(pkg))
            run_build(["go", "build", "-modfile", rmod, "-o", binaries[var], pkg], env, REPO)
    return out, binaries


class Shard:
    def __init__(self, n, binary, pid, spec, tier, seed, scratch, extra, replay=None):
        self.n, self.replay = n, replay
        self.out = os.path.join(scratch, "out%d" % n)
        os.makedirs(self.out, exist_ok=True)
        i = 0 if tier == "quick" else 1
        self.budget = spec["budget"][i]
        env = go_env()
        env.update(extra)
        env.update(VERIF_OUT=self.out, VERIF_SHARD=str(n), VERIF_SHARD_SEED=str((seed * 1009 + n * 7919 + 17) & 0x7FFFFFFF),
                   VERIF_SCALE=str(spec["scale"][i]), VERIF_BUDGET_S=str(self.budget), VERIF_TIER=tier,
                   GOGC="400", GOMEMLIMIT="1300MiB", GORACE="halt_on_error=1 exitcode=66", GOMAXPROCS=str(spec.get("procs", 4)))
        if replay:
            env["VERIF_REPLAY"] = replay
        self.log = open(os.path.join(self.out, "log"), "w+", errors="replace")
        self.hard = self.budget * 2 + 90
        self.start = time.time()
        self.p = subprocess.Popen([binary, "-test.run", "^Test%s$" % pid, "-test.timeout", "%ds" % self.hard, "-test.v=false"],
                                  env=env, cwd=self.out, stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)

    def poll(self):
        if self.p.poll() is None and time.time() - self.start > self.hard + 30:
            self.kill()
        return self.p.poll()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def text(self):
        self.log.flush()
        with open(os.path.join(self.out, "log"), errors="replace") as f:
            return f.read()

    def files(self, prefix):
        return sorted(os.path.join(self.out, f) for f in os.listdir(self.out) if f.startswith(prefix) and not f.endswith(".tmp"))


CRASH = re.compile(r"^(panic: |fatal error: |WARNING: DATA RACE|SIGSEGV|unexpected fault)", re.M)
VERTEX = re.compile(r"lxdlam/vertex/|/repo/(pkg|cmd)/")


def classify(s):
    """(verdict, replay file, message) of an ended shard; verdict ok, violation, hang or error."""
    rc, text = s.p.returncode, s.text()
    if rc == 0:
        return "ok", None, ""
    reps = s.files("replay-")
    if reps:
        return "violation", reps[0], json.load(open(reps[0])).get("violation", "")
    cur = s.files("current-")
    if "test timed out" in text or rc in (-9,):
        return "hang", cur[0] if cur else None, "a case did not end:\n" + text[-3000:]
    m = CRASH.search(text)
    if m and "vertexverif/h.InternalError" not in text and "HARNESS" not in text:
        # the goroutine that crashed comes first, a race names both sides
        part = text[m.start():]
        head = part[:6000] if "DATA RACE" in m.group(0) else part.split("\n\ngoroutine ", 2)[0:2]
        if not isinstance(head, str):
            head = "\n\ngoroutine ".join(head)
        if VERTEX.search(head):
            return "violation", cur[0] if cur else None, "the code under test crashed:\n" + part[:3000]
    return "error", None, text[-5000:]


def fresh_replay(pid, sub, msg):
    return {"property": pid, "sub": sub, "violation": msg, "plan": None}


def save_replay(pid, path, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    data = json.load(open(path)) if path else fresh_replay(pid, "", msg)
    data["violation"] = msg or data.get("violation", "")
    body = json.dumps(data, indent=1)
    name = "%s-%s.json" % (pid, hashlib.sha1(json.dumps([data["sub"], data["plan"]]).encode()).hexdigest()[:10])
    dst = os.path.join(d, name)
    with open(dst, "w") as f:
        f.write(body)
    return dst


def merge(pid, spec, tier, seed, shards, wall, violations):
    subs, hashes = {}, {}
    for s in shards:
        for f in s.files("stats-"):
            try:
                st = json.load(open(f))
            except ValueError:
                continue
            a = subs.setdefault(st["name"], dict(rule=st["rule"], evaluations=0, nontrivial=0, steps=0, labels={}, samples=[], stopped_by_time_budget=0, wall_s=0.0))
            for k in ("evaluations", "nontrivial", "steps"):
                a[k] += st[k]
            a["wall_s"] += st["wall_s"]
            a["stopped_by_time_budget"] += bool(st["stopped_by_time_budget"])
            for k, v in (st.get("labels") or {}).items():
                a["labels"][k] = a["labels"].get(k, 0) + v
            if len(a["samples"]) < 2:
                a["samples"] += (st.get("samples") or [])[:1]
        for f in s.files("hashes-"):
            b = open(f, "rb").read()
            name = os.path.basename(f)
            hashes.setdefault(name.split("-", 2)[2].rsplit("-", 1)[0], set()).update(x[0] for x in struct.iter_unpack("<Q", b[:len(b) // 8 * 8]))
    samples = []
    for name, a in subs.items():
        a["wall_s"] = round(a["wall_s"], 1)
        a["distinct_nontrivial"] = len(hashes.get(name, ()))
        samples += [{"sub": name, "plan": x} for x in a.pop("samples")]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(a["evaluations"] for a in subs.values()),
            "distinct_nontrivial": sum(a["distinct_nontrivial"] for a in subs.values()),
            "steps": sum(a["steps"] for a in subs.values()),
            "rule": " | ".join("%s: %s" % (n, a["rule"]) for n, a in subs.items()),
            "samples": samples or ["none"],
            "subs": subs,
            "shards": len(shards),
        },
        "assumptions": ASSUMPTIONS[spec["pkg"]],
        "wall_s": round(wall, 1),
        "violations": violations,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))
    return ev


def finish(shards):
    for s in shards:
        if s.poll() is None:
            s.kill()


def main():
    args = sys.argv[1:]
    pid = args[0] if args else ""
    if pid == "--setup":
        # every check builds what it needs; this only fills the build cache
        for one in ("C01", "C29"):
            scratch = tempfile.mkdtemp(prefix="verif-setup-")
            try:
                build(dict(DEFAULT, **CHECKS[one]), scratch)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        print("setup done")
        return 0
    if pid not in CHECKS:
        print("usage: check.py ID [--replay FILE]; ids: " + " ".join(CHECKS))
        sys.exit(2)
    replay = os.path.abspath(args[args.index("--replay") + 1]) if "--replay" in args else None
    spec = dict(DEFAULT, **CHECKS[pid])
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    if "--thorough" in args:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    start = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    shards = []

    def stop(*_):
        finish(shards)
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(2)
    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        return work(pid, spec, tier, seed, start, scratch, shards, replay)
    finally:
        finish(shards)
        if "--keep" in args:
            print("kept " + scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def rerun(pid, spec, tier, seed, binary, extra, scratch, shards, path, n):
    """Runs one plan alone."""
    s = Shard(n, binary, pid, dict(spec, budget=(15, 15)), tier, seed, scratch, extra, replay=path)
    shards.append(s)
    while s.poll() is None:
        time.sleep(0.1)
    return s


def work(pid, spec, tier, seed, start, scratch, shards, replay):
    binary, extra = build(spec, scratch)
    built = time.time() - start
    if replay:
        s = rerun(pid, spec, tier, seed, binary, extra, scratch, shards, replay, 0)
        print(s.text()[-6000:])
        verdict, path, msg = classify(s)
        if verdict in ("violation", "hang"):
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        return 0 if verdict == "ok" else 2

    nshards = spec["shards"][0 if tier == "quick" else 1]
    for n in range(nshards):
        shards.append(Shard(n, binary, pid, spec, tier, seed, scratch, extra))
    mine = list(shards)
    pending = list(mine)
    verdicts = []
    while pending:
        time.sleep(0.05)
        for s in list(pending):
            if s.poll() is None:
                continue
            pending.remove(s)
            v = classify(s)
            verdicts.append((s, v))
            if v[0] == "violation":
                for o in pending:
                    o.kill()
                pending = []
                break
    wall = time.time() - start
    found = [v for _, v in verdicts if v[0] == "violation"]
    hangs = [(s, v) for s, v in verdicts if v[0] == "hang"]
    errors = [v for _, v in verdicts if v[0] == "error"]
    if not found and hangs:
        # a hang counts when the plan hangs again, alone and undisturbed
        for s, v in hangs:
            if v[1]:
                path = os.path.join(scratch, "hang.json")
                shutil.copy(v[1], path)
                again = classify(rerun(pid, spec, tier, seed, binary, extra, scratch, shards, path, 900 + s.n))
                if again[0] in ("violation", "hang"):
                    found = [("violation", path, again[2] or v[2])]
                    break
        if not found:
            errors.append(("error", None, "a shard did not end in time, and no case of it hangs again:\n" + hangs[0][1][2]))
    ev = merge(pid, spec, tier, seed, mine, wall, len(found))
    c = ev["coverage"]
    if found:
        _, path, msg = found[0]
        dst = save_replay(pid, path, msg)
        print(msg[:4000])
        print("VIOLATION property=%s replay=%s" % (pid, dst))
        return 1
    if errors:
        print("CHECK ERROR (no verdict):")
        print(errors[0][2])
        return 2
    if c["distinct_nontrivial"] == 0:
        print("CHECK ERROR: nothing was explored")
        return 2
    print("OK property=%s tier=%s cases=%d distinct_nontrivial=%d steps=%d build=%.1fs wall=%.1fs" % (pid, tier, c["evaluations"], c["distinct_nontrivial"], c["steps"], built, wall))
    for n, a in c["subs"].items():
        print("  %-14s cases=%-8d nontrivial=%-8d labels=%s%s" % (n, a["evaluations"], a["nontrivial"], json.dumps(a["labels"], ensure_ascii=True)[:300], " (stopped by time budget in %d shards)" % a["stopped_by_time_budget"] if a["stopped_by_time_budget"] else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
