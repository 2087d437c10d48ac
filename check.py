#!/usr/local/bin/python3
"""Runs the property-based check of one property.

usage: check.py ID              decide property ID on the current /repo
       check.py ID --replay F   run the single case recorded in replay file F

Exit 0: held. Exit 1: violated (a VIOLATION line names the replay file).
Any other exit: the check itself could not give an answer.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
GO = "/opt/veriftools/go1.23.12/bin"
CASES = json.load(open(os.path.join(VERIF, "checks.json")))
KNOWN = os.path.join(VERIF, "known_findings.json")


def goenv():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = GO + ":" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly -buildvcs=false", CGO_ENABLED="1",
             GOSUMDB="off", GONOSUMDB="*")
    e.pop("GORACE", None)
    return e


def die(msg, code=3):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)


def build(args, cwd, what):
    for attempt in range(2):
        p = subprocess.run(["go"] + args, cwd=cwd, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return
        if "no space left" not in p.stdout and "cannot allocate" not in p.stdout:
            break
        time.sleep(2)
    die("building %s failed:\n%s" % (what, p.stdout[-4000:]))


def build_all(tmp, cfg):
    binp = os.path.join(tmp, "vh.test")
    args = ["test", "-c", "-o", binp]
    if cfg.get("race"):
        args.append("-race")
    build(args + ["."], os.path.join(VERIF, "harness"), "the harness")
    idmd = ""
    if cfg.get("idmd"):
        idmd = os.path.join(tmp, "idmd")
        build(["build", "-o", idmd, "./cmd/idmd"], REPO, "idmd")
    return binp, idmd


def seed_for(pid, seed, shard):
    h = hashlib.sha256(("%s/%d/%d" % (pid, seed, shard)).encode()).digest()
    return int.from_bytes(h[:7], "big") | 1


class Shard:
    def __init__(self, pid, cfg, tmp, binp, idmd, tier, seed, n, shards, extra=(), scale=None):
        self.n = n
        self.dir = os.path.join(tmp, "s%d" % n)
        os.makedirs(os.path.join(self.dir, "scratch"))
        self.out = os.path.join(self.dir, "ev.json")
        self.journal = os.path.join(self.dir, "journal.txt")
        self.logp = os.path.join(self.dir, "log.txt")
        self.rseed = seed_for(pid, seed, n)
        e = dict(os.environ)
        for k in ("IDMD_", "LDAP", "KIDM_", "KOPANO_"):
            for name in list(e):
                if name.startswith(k):
                    del e[name]
        e.update(VH_SHARD=str(n), VH_SHARDS=str(shards), VH_OUT=self.out, VH_JOURNAL=self.journal, VERIF_TIER=tier,
                 VH_SCRATCH=os.path.join(self.dir, "scratch"), VH_IDMD=idmd, GOMAXPROCS=str(cfg.get("procs", 2)),
                 VH_SCALE=str(scale if scale is not None else cfg.get("scale_" + tier, 100)), VERIF_SEED=str(seed),
                 TMPDIR=os.path.join(self.dir, "scratch"), GOTRACEBACK="all", GORACE="halt_on_error=1 exitcode=66")
        limit = cfg.get("timeout_" + tier, 780 if tier == "quick" else 5400)
        args = [binp, "-test.run", "^Test%s$" % pid, "-test.timeout", "%ds" % limit, "-test.count=1",
                "-rapid.seed", str(self.rseed), "-rapid.shrinktime", "20s", *extra]
        self.args = args
        self.f = open(self.logp, "wb")
        self.p = subprocess.Popen(args, cwd=self.dir, env=e, stdin=subprocess.DEVNULL, stdout=self.f,
                                  stderr=subprocess.STDOUT, start_new_session=True)
        self.deadline = time.time() + limit + 30

    def wait(self):
        try:
            self.rc = self.p.wait(timeout=max(1, self.deadline - time.time()))
        except subprocess.TimeoutExpired:
            self.rc = None
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if self.rc is None:
            self.p.wait()
        self.f.close()
        with open(self.logp, "rb") as f:
            self.log = f.read().decode("utf-8", "replace")
        return self

    def verdict(self):
        if self.rc == 0:
            return "ok"
        if self.rc == 4 and "VH-HANG" in self.log:
            return "violation" if re.search(r"^github.com/libregraph/idm/", self.log, re.M) else "error"
        if self.rc is None or "VH-INFRA-ERROR" in self.log or "panic: test timed out" in self.log:
            return "error"
        if self.rc == 66 or "WARNING: DATA RACE" in self.log:
            return "violation" if "libregraph/idm" in self.log else "error"
        if re.search(r"^--- FAIL: Test", self.log, re.M) and "--- FAIL" in self.log and not re.search(r"^(fatal error: |panic: )", self.log, re.M):
            return "violation"
        m = re.search(r"^(fatal error: |panic: |unexpected fault)(.*)", self.log, re.M)
        if m:
            if "out of memory" in m.group(2) or "cannot allocate" in self.log or "newosproc" in self.log:
                return "error"
            # Only the goroutine that died counts, not every goroutine listed.
            tail = self.log[m.start():]
            g = re.search(r"^goroutine \d+ \[[^\]]*\]:\n(.*?)(\n\n|\Z)", tail, re.M | re.S)
            stack = g.group(1) if g else tail
            if "github.com/libregraph/idm" in stack or "all goroutines are asleep" in m.group(2):
                return "violation"
            return "error"
        return "error"


def replay_path(pid, seed, tier, s):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    fail = None
    for root, _, files in os.walk(os.path.join(s.dir, "testdata")):
        for fn in sorted(files):
            if fn.endswith(".fail"):
                fail = os.path.join(root, fn)
    leg = ""
    m = re.search(r'-run="(Test%s[^"]*)" -rapid' % pid, s.log)
    if m:
        leg = m.group(1)
    rec = {"property": pid, "tier": tier, "seed": seed, "shard": s.n, "rapid_seed": s.rseed, "test": leg,
           "failfile": open(fail, encoding="utf-8", errors="surrogateescape").read() if fail else None,
           "journal": open(s.journal, errors="replace").read()[-20000:] if os.path.exists(s.journal) else "",
           "log": "\n".join(l for l in s.log.split("\n") if "[rapid] draw" not in l)[-20000:]}
    p = os.path.join(d, "%s-%s-%d-%d.json" % (pid, tier, seed, s.n))
    with open(p, "w") as f:
        json.dump(rec, f, indent=1)
    return p


def known_for(pid):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN)).get("findings", []) if k["property"] == pid]


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CASES:
        die("unknown property")
    pid = sys.argv[1]
    cfg = CASES[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("bad VERIF_TIER")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:4], "big")
    t0 = time.time()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 4 << 30 else None
    tmp = tempfile.mkdtemp(prefix="vh-%s-" % pid, dir=base)
    os.chmod(tmp, 0o755)
    try:
        return run(pid, cfg, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, cfg, tier, seed, tmp, t0):
    binp, idmd = build_all(tmp, cfg)
    if "--replay" in sys.argv:
        rec = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        extra = ["-test.v"]
        if rec["failfile"]:
            ff = os.path.join(tmp, "case.fail")
            open(ff, "w", encoding="utf-8", errors="surrogateescape").write(rec["failfile"])
            extra += ["-rapid.failfile", ff, "-test.run", "^%s$" % "$/^".join(rec["test"].split("/"))]
        s = Shard(pid, cfg, tmp, binp, idmd, rec["tier"], rec["seed"], rec["shard"], cfg.get("shards_" + rec["tier"], 6), extra).wait()
        sys.stdout.write(s.log)
        return {"ok": 0, "violation": 1}.get(s.verdict(), 3)
    shards = cfg.get("shards_" + tier, 6 if tier == "quick" else 48)
    par = cfg.get("parallel", 6 if tier == "quick" else 8)
    todo, running, done = list(range(shards)), [], []
    while todo or running:
        while todo and len(running) < par:
            running.append(Shard(pid, cfg, tmp, binp, idmd, tier, seed, todo.pop(0), shards))
        time.sleep(0.02)
        for s in list(running):
            if s.p.poll() is not None or time.time() > s.deadline:
                running.remove(s)
                s.wait()
                done.append(s)
                shutil.rmtree(os.path.join(s.dir, "scratch"), ignore_errors=True)
                if s.verdict() == "violation":
                    todo = []  # one violation decides; the running shards may end
                    for r in running:
                        r.deadline = min(r.deadline, time.time() + 20)
    done.sort(key=lambda s: s.n)
    evals = nontriv = 0
    hashes, classes, notes, samples = set(), {}, {}, []
    for s in done:
        try:
            e = json.load(open(s.out))
        except (OSError, ValueError):
            continue
        evals += e["evaluations"]
        nontriv += e["nontrivial"]
        hashes.update(e["hashes"])
        for k, v in e["classes"].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in e["notes"].items():
            notes[k] = notes.get(k, 0) + v
        samples.extend((e["samples"] or [])[:max(2, 12 // shards)])
    verdicts = [s.verdict() for s in done]
    viol = [s for s, v in zip(done, verdicts) if v == "violation"]
    errs = [s for s, v in zip(done, verdicts) if v == "error"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": cfg["rule"],
                       "samples": samples[:14], "processes": len(done), "case_classes": classes, "measured": notes},
          "assumptions": cfg.get("assumptions", []), "violations": len(viol), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_for(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        s = viol[0]
        p = replay_path(pid, seed, tier, s)
        tail = "\n".join(l for l in s.log.split("\n") if "[rapid] draw" not in l)
        print(tail[:6000])
        print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
        return 1
    if errs:
        print(errs[0].log[-5000:])
        die("%d of %d processes gave no answer (exit %s)" % (len(errs), len(done), errs[0].rc))
    if evals == 0 or not hashes:
        die("no non-trivial case was generated")
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, evals, len(hashes), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
