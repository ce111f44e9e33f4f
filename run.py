#!/usr/bin/env python3
"""Runs the generated checks of one property against /repo's working tree.

  python3 run.py P01                 (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  python3 run.py --replay replays/X.json

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check could not decide (build failure, resources, generator trouble).
"""
import array, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPLAYS = os.path.join(HERE, "replays")
RACE = {"P23"}
MASK = (1 << 64) - 1


def go_env():
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, env=env).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                env[k.decode()] = v.decode("utf-8", "surrogateescape")
    except OSError:
        pass
    env["GOFLAGS"] = "-mod=mod"
    env["GOPROXY"] = "off"
    env["GOWORK"] = "off"
    env["GOTOOLCHAIN"] = "local"
    return env


def build(tmp, env, race):
    exe = os.path.join(tmp, "pbt")
    cmd = ["go", "build", "-buildvcs=false", "-o", exe]
    if race:
        cmd.insert(2, "-race")
        env = dict(env, CGO_ENABLED="1")
    p = subprocess.run(cmd + ["."], cwd=HARNESS, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        print("build failed:\n" + p.stdout + p.stderr)
        sys.exit(2)
    return exe


def subseed(seed, prop, sub, shard):
    h = hashlib.sha256(("%s/%s/%s/%s" % (seed, prop, sub, shard)).encode()).digest()
    return (int.from_bytes(h[:8], "little") >> 2) | 1


def strip_failfile(path):
    with open(path, errors="replace") as f:
        return [l.rstrip("\n") for l in f if l.strip() and not l.startswith("#")]


# Once a violation is known, the jobs that have not begun in the first GRACE
# seconds are not run: where the code hangs, each of them would take minutes. A quick
# check ends in time, whatever happens.
GRACE, QUICK_END = 60, 780
STARTED = time.time()
found = []  # the time of the first violation


class Job:
    def __init__(self, exe, tmp, env, prop, sub, checks, seed, shard, tier):
        self.__dict__.update(locals())

    def run(self, tag, journal=False, seed=None, checks=None, failfile=None):
        d = tempfile.mkdtemp(prefix="job-", dir=self.tmp)
        out, hs, jr = os.path.join(d, "out.json"), os.path.join(d, "hashes"), os.path.join(d, "journal")
        cmd = [self.exe, "-prop", self.prop, "-sub", self.sub["Name"], "-out", out, "-hashes", hs,
               "-rapid.seed=%d" % (seed or self.seed), "-rapid.checks=%d" % (checks or max(1, self.checks)),
               "-rapid.shrinktime=%s" % ("8s" if self.tier == "quick" else "30s"), "-rapid.steps=30"]
        if journal:
            cmd += ["-journal", jr]
        if failfile:
            cmd += ["-rapid.failfile=" + failfile]
        limit = 600 if self.tier == "quick" else 3000
        if self.tier == "quick":
            limit = max(1, min(limit, STARTED + QUICK_END - time.time()))
        env = dict(self.env, GOTRACEBACK="single", GOMAXPROCS="4", GORACE="halt_on_error=1 exitcode=66")
        try:
            with open(os.path.join(d, "stderr"), "wb") as ef, open(os.path.join(d, "stdout"), "wb") as of:
                p = subprocess.run(cmd, cwd=d, env=env, stdout=of, stderr=ef, timeout=limit)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        with open(os.path.join(d, "stderr"), errors="replace") as f:
            err = f.read(20000)
        o = None
        if os.path.exists(out):
            with open(out) as f:
                o = json.load(f)
        r = {"rc": rc, "err": err, "o": o, "journal": "", "hashes": array.array("Q"), "dir": d}
        if os.path.exists(hs):
            with open(hs, "rb") as f:
                b = f.read()
            r["hashes"].frombytes(b[:len(b) // 8 * 8])
        if journal and os.path.exists(jr):
            with open(jr, errors="replace") as f:
                r["journal"] = f.read(20000)
        return r

    def case_seed(self, it):
        return (self.seed + it * (it + 1) // 2) & MASK

    def execute(self):
        """-> (kind, result, replay) with kind ok | violation | error | skipped"""
        if found and time.time() > STARTED + GRACE:
            return "skipped", {"o": None, "hashes": array.array("Q"), "dir": ""}, None
        res = self.decide()
        if res[0] == "violation":
            found.append(time.time())
        return res

    def decide(self):
        r = self.run("first")
        base = {"property": self.prop, "sub": self.sub["Name"], "race": self.prop in RACE, "fixed": self.sub["Fixed"]}
        o = r["o"]
        if r["rc"] == 0 and o and o["status"] == "ok":
            return "ok", r, None
        if r["rc"] == "timeout":
            return "error", r, "time limit of the check reached, inconclusive"
        if r["rc"] == 66 or "WARNING: DATA RACE" in r["err"]:
            r2 = r
            for _ in range(2):
                r2 = self.run("again", journal=True)
                if "WARNING: DATA RACE" in r2["err"]:
                    break
            # the race detector has no false positives: one report is enough
            return "violation", r, dict(base, kind="seed", seed=self.seed, checks=self.checks, repeat=5,
                                        message="data race\n" + r["err"][:6000] + "\ncase: " + (r2["journal"] or "")[:3000])
        if o and o["status"] == "fail":
            rep = dict(base, kind="fixed" if self.sub["Fixed"] else "seed", seed=self.case_seed(o["iter"]), checks=1, message=o["message"])
            if o.get("failfile") and os.path.exists(o["failfile"]):
                rep.update(kind="failfile", data=strip_failfile(o["failfile"]))
            return "violation", r, rep
        if o and o["status"] == "flaky":
            for _ in range(4):
                r2 = self.run("again")
                if r2["o"] and r2["o"]["status"] in ("fail", "flaky"):
                    return "violation", r, dict(base, kind="seed", seed=self.seed, checks=self.checks, repeat=5,
                                                message="fails, not on every execution of the same case\n" + o["message"])
            return "error", r, "a failure was not reproduced in 4 further runs:\n" + o["message"]
        if o and o["status"] == "generr":
            return "error", r, "generator trouble: " + o["message"]
        if o and o["status"] == "died":
            s = self.case_seed(o["iter"])
            for _ in range(5):  # goroutines may need several attempts
                r2 = self.run("again", journal=True, seed=s, checks=1) if not self.sub["Fixed"] else self.run("again", journal=True)
                if r2["rc"] == r["rc"]:
                    break
            if r2["rc"] == r["rc"]:
                return "violation", r, dict(base, kind="fixed" if self.sub["Fixed"] else "seed", seed=s, checks=1, message=o["message"])
            return "error", r, "not reproduced: " + o["message"]
        if r["rc"] == 2 and ("fatal error:" in r["err"] or "panic:" in r["err"]):
            r2 = self.run("again", journal=True)
            if r2["rc"] == 2 and ("fatal error:" in r2["err"] or "panic:" in r2["err"]):
                lines = [l for l in r["err"].splitlines() if "fatal error" in l or "panic:" in l or "jsonutils" in l][:14]
                return "violation", r, dict(base, kind="fixed" if self.sub["Fixed"] else "seed", seed=self.seed, checks=self.checks,
                                            message="the process crashes\n" + "\n".join(lines) + "\ncase: " + r2["journal"][:3000])
            return "error", r, "crash not reproduced:\n" + r["err"][:3000]
        return "error", r, "unexpected end rc=%s\n%s" % (r["rc"], r["err"][:3000])


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    env = go_env()
    tmp = tempfile.mkdtemp(prefix="pbt-")
    try:
        exe = build(tmp, env, rep.get("race"))
        sub = {"Name": rep["sub"], "Fixed": rep.get("fixed", False)}
        job = Job(exe, tmp, env, rep["property"], sub, rep.get("checks", 1), rep.get("seed", 1), 0, "quick")
        ff = None
        if rep["kind"] == "failfile":
            ff = os.path.join(tmp, "replay.fail")
            with open(ff, "w") as f:
                f.write("\n".join(rep["data"]) + "\n")
        for _ in range(rep.get("repeat", 1)):
            r = job.run("replay", journal=True, failfile=ff)
            if r["rc"] != 0:
                break
        if r["rc"] == 0:
            print("not reproduced: the property holds on this case")
            return 0
        print((r["o"] or {}).get("message") or r["err"][:4000])
        if r["journal"]:
            print("case:", r["journal"][:4000])
        if r["rc"] == "timeout":
            return 2
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1:] == ["--setup"]:
        tmp = tempfile.mkdtemp(prefix="pbt-")
        try:
            for race in (False, True):
                build(tmp, go_env(), race)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("setup done")
        return
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    env = go_env()
    tmp = tempfile.mkdtemp(prefix="pbt-")
    try:
        code = check(prop, tier, seed, env, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def check(prop, tier, seed, env, tmp, t0):
    exe = build(tmp, env, prop in RACE)
    subs = [s for s in json.loads(subprocess.run([exe, "-list"], capture_output=True, text=True, env=env).stdout) if s["Prop"] == prop]
    if not subs:
        print("no checks for", prop)
        return 2
    jobs = []
    for s in subs:
        if s["Fixed"]:
            jobs.append(Job(exe, tmp, env, prop, s, 1, 1, 0, tier))
            continue
        for k in range(s["Shards"] if tier == "quick" else s["Thorough"]):
            jobs.append(Job(exe, tmp, env, prop, s, s["Quick"], subseed(seed, prop, s["Name"], k), k, tier))
    evals, nontriv, labels, samples, hashes = 0, 0, {}, [], set()
    violations, errors, persub = [], [], {}
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for job, (kind, r, info) in zip(jobs, ex.map(lambda j: j.execute(), jobs)):
            o = r["o"] or {}
            evals += o.get("evals", 0)
            nontriv += o.get("nontriv", 0)
            if len(hashes) < 5000000:  # beyond that the count is a lower bound
                hashes.update(r["hashes"])
            if kind == "ok":
                shutil.rmtree(r["dir"], ignore_errors=True)
            name = job.sub["Name"]
            ps = persub.setdefault(name, {"evaluations": 0, "nontrivial": 0, "classes": {}})
            ps["evaluations"] += o.get("evals", 0)
            ps["nontrivial"] += o.get("nontriv", 0)
            for k, v in (o.get("labels") or {}).items():
                ps["classes"][k] = ps["classes"].get(k, 0) + v
            if job.shard == 0:
                samples += ["%s: %s" % (name, s) for s in (o.get("samples") or [])]
            if kind == "violation":
                violations.append((job, info))
            elif kind == "error":
                errors.append((job, info))
    for job, rep in violations:
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%d-%d.json" % (prop, job.sub["Name"], seed, job.shard))
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        print("--- %s/%s" % (prop, job.sub["Name"]))
        print(rep["message"][:3000])
        print("replay: python3 %s --replay %s" % (os.path.join(HERE, "run.py"), path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for job, msg in errors:
        print("--- %s/%s: no answer: %s" % (prop, job.sub["Name"], str(msg)[:3000]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(hashes),
            "rule": " | ".join("%s: %s" % (s["Name"], s["Rule"]) for s in subs),
            "samples": samples[:24],
            "checks": persub,
        },
        "assumptions": ["generated search: absence of violations is established for the explored cases only",
                        "the reference models in /verif/harness and Go's encoding/json, net/url, strconv, reflect"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s seed %d: %d cases, %d distinct non-trivial, %d violations, %d without answer, %.1f s" % (
        prop, tier, seed, evals, len(hashes), len(violations), len(errors), time.time() - t0))
    if violations:
        return 1
    if errors:
        return 2
    return 0


if __name__ == "__main__":
    main()
