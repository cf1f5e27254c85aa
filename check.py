#!/usr/bin/env python3
"""Decide one property: build the harness against /repo's working tree, run its workloads under
the monitors, and judge what the monitors observed.

usage: check.py ID [--only INDEX] | --setup     (VERIF_SEED, VERIF_TIER from the environment)
"""
import glob, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = os.environ.get("VERIF_GOROOT", "/opt/veriftools/go1.27.3")
PKG = "github.com/Atheer-Ganayem/SnapWS"

# per property: race detector, level, notes on the assumptions
CFG = json.load(open(os.path.join(HERE, "checks.json")))


def goenv():
    e = dict(os.environ)
    e.update(GOROOT=GOROOT, PATH=GOROOT + "/bin:" + e.get("PATH", ""), GOTOOLCHAIN="local",
             GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOCACHE=e.get("VERIF_GOCACHE", os.path.join(HERE, ".build", "gocache")))
    e.pop("GOPATH_OVERRIDE", None)
    return e


def build(work, race, realsync=False):
    """Returns (binary, instrumented, total sites) or raises. With realsync the library's locks stay
    what they are (for real time); otherwise waiting for them is something virtual time understands."""
    env = goenv()
    h = os.path.join(HERE, "harness")
    log = []

    def run(*cmd):
        p = subprocess.run(cmd, cwd=h, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        log.append("$ " + " ".join(cmd) + "\n" + p.stdout)
        return p.returncode == 0

    out = os.path.join(work, "hr.test" if realsync else "h.test")
    base = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        base.append("-race")
    if REPO != "/repo":  # for experiments on a scratch copy
        m = open(os.path.join(h, "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(os.path.join(work, "go.mod"), "w").write(m)
        shutil.copy(os.path.join(h, "go.sum"), work)
        base += ["-modfile", os.path.join(work, "go.mod")]
    ov = os.path.join(work, "overlay" + "-r" * realsync)
    os.makedirs(ov, exist_ok=True)
    if run("go", "build", "-o", os.path.join(work, "vinstr"), "./vinstr") and \
       run(os.path.join(work, "vinstr"), REPO, ov, *(["realsync"] if realsync else [])) and \
       run(*base, "-tags", "verifinstr", "-overlay", os.path.join(ov, "overlay.json"), "./h"):
        return out, True, len(json.load(open(os.path.join(ov, "sites.json"))))
    if run(*base, "./h"):
        sys.stderr.write("note: built without the instrumentation overlay\n" + "".join(log)[-2000:])
        return out, False, 0
    sys.stderr.write("".join(log)[-8000:])
    raise SystemExit("check error: the harness does not build against /repo")


GRACE = 45  # seconds the shards may go on once one of them has found a violation


class Clock:
    """The time all shards of a check have; a violation found by one of them cuts it short."""
    def __init__(self, limit):
        self.deadline = time.time() + limit

    def found(self):
        self.deadline = min(self.deadline, time.time() + GRACE)


class Shard:
    def __init__(self, binp, work, prop, i, n, env, clock, only):
        self.binp, self.work, self.prop, self.i, self.n = binp, work, prop, i, n
        self.env, self.clock, self.only = env, clock, only
        self.events, self.crashes, self.problems = [], [], []

    def wait(self, p, outf):
        """waits for the process, at most until the deadline, looking for violations meanwhile"""
        pos, found = 0, False
        while True:
            try:
                p.wait(timeout=0.5 if not found else max(0.05, min(0.5, self.clock.deadline - time.time())))
                done = True
            except subprocess.TimeoutExpired:
                done = False
            if not found and os.path.exists(outf):
                with open(outf, "rb") as f:
                    f.seek(pos)
                    new = f.read()
                pos = max(0, pos + new.rfind(b"\n") + 1) if b"\n" in new else pos
                if b'"vios":[' in new or b'"class":"lock-stall"' in new or b'"class":"spin"' in new:
                    found = True
                    self.clock.found()
            if done:
                return
            if time.time() > self.clock.deadline:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                self.problems.append("shard %d stopped at its time limit" % self.i)
                return

    def run(self):
        start, restarts = 0, 0
        while True:
            outf = os.path.join(self.work, "out-%d-%d.jsonl" % (self.i, restarts))
            logf = os.path.join(self.work, "log-%d-%d.txt" % (self.i, restarts))
            env = dict(self.env, VERIF_OUT=outf, VERIF_SHARD=str(self.i), VERIF_NSHARDS=str(self.n),
                       VERIF_START=str(start), VERIF_PROP=self.prop,
                       GORACE="halt_on_error=0 exitcode=0 history_size=3 log_path=" + os.path.join(self.work, "race-%d-%d" % (self.i, restarts)))
            if self.only is not None:
                env["VERIF_ONLY"] = str(self.only)
            with open(logf, "wb") as lf:
                p = subprocess.Popen([self.binp, "-test.run", "^TestProp$", "-test.timeout", "0"], cwd=self.work, env=env,
                                     stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
                self.wait(p, outf)
            evs = []
            if os.path.exists(outf):
                for l in open(outf, errors="replace"):
                    try:
                        evs.append(json.loads(l))
                    except ValueError:
                        pass
            for e in evs:
                e["run"] = restarts
            self.events += evs
            if any(e["t"] == "done" for e in evs):
                return
            last = [e["idx"] for e in evs if e["t"] == "start"]
            ended = {e["idx"] for e in evs if e["t"] == "end"}
            if not last:
                self.problems.append("shard %d observed nothing: %s" % (self.i, tail(logf)))
                return
            cur = last[-1]
            stalled = any(e["t"] == "stall" for e in evs)
            if not stalled and p.returncode != -signal.SIGKILL:
                self.crashes.append((cur, cur in ended, open(logf, errors="replace").read()))
                if crash_class(self.crashes[-1][2])[0] == "library":
                    self.clock.found()
            restarts += 1
            start = cur + 1
            if restarts > 3 or time.time() > self.clock.deadline - 5:
                self.problems.append("shard %d given up after %d restarts" % (self.i, restarts))
                return


def tail(f, n=1500):
    try:
        return open(f, errors="replace").read()[-n:]
    except OSError:
        return ""


def crash_class(log):
    """'library', 'harness' or 'other', with the interesting part of the log."""
    m = re.search(r"^(panic:|fatal error:|runtime: |SIGSEGV|unexpected fault)", log, re.M)
    txt = log[m.start():] if m else log[-6000:]
    kind = "other"
    # the goroutine that crashed comes first
    g = re.search(r"^goroutine \d+ .*?(?=^\s*$)", txt + "\n\n", re.M | re.S)
    body = g.group(0) if g else txt
    seen_panic = "panic(" not in body
    for l in body.splitlines():
        if l.startswith("panic("):
            seen_panic = True
            kind = "other"
            continue
        if not seen_panic or l.startswith("\t") or kind != "other":
            continue
        if l.startswith(PKG + "."):
            kind = "library"
        elif l.startswith("verif/harness/"):
            kind = "harness"
    if kind == "library" and re.search(r"^fatal error: ", txt, re.M):
        # a fault of the runtime itself, unless it is one that a program can cause
        kind = "other"
    if re.search(r"^fatal error: (stack overflow|concurrent map|all goroutines are asleep|sync: |runtime: out of memory|runtime: cannot allocate|index out of range)|stack exceeds", txt, re.M) and PKG in txt:
        kind = "library"
    return kind, txt[:6000]


def race_blocks(work):
    for f in sorted(glob.glob(os.path.join(work, "race-*"))):
        txt = open(f, errors="replace").read()
        for blk in txt.split("=================="):
            if "DATA RACE" in blk:
                yield f, blk


def race_class(blk):
    """both accesses made by the library (or by the transport on the library's behalf)?"""
    parts = re.split(r"\n\n", blk.strip())
    acc = [p for p in parts if re.search(r"^\s*(Previous )?(WARNING: DATA RACE\n)?\s*(Atomic |Previous |atomic )*(Read|Write|read|write|atomic)", p, re.M) and " by " in p][:2]
    lib = []
    for p in acc:
        fr = [l.strip() for l in p.splitlines() if l.startswith("  ") and not l.startswith("      ") and "(" in l]
        fr = [l for l in fr if not re.match(r"(Read|Write|Previous|Atomic|Goroutine)", l)]
        cls = None
        for l in fr:
            if l.startswith(PKG + ".") or l.startswith("github.com/Atheer-Ganayem/SnapWS"):
                cls = "library"
                break
            if l.startswith("verif/harness/"):
                if "(*MemConn)" in l or "(*raceConn)" in l:
                    continue
                cls = "library" if ".publicFields(" in l else "harness"
                break
        lib.append(cls)
    ok = len(lib) == 2 and all(c == "library" for c in lib)
    return ok, re.sub(r"0x[0-9a-f]+", "", blk.strip())[:5000]


def setup():
    work = os.path.join(HERE, ".build", "setup-%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        build(work, False)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        return setup()
    only = None
    if "--only" in sys.argv:
        only = int(sys.argv[sys.argv.index("--only") + 1])
    cfg = CFG[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = os.path.join(HERE, ".build", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        rc = run(prop, cfg, tier, seed, only, work, t0)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def load_known(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out


def run(prop, cfg, tier, seed, only, work, t0):
    binp, instr, nsites = build(work, cfg.get("race", False))
    binr = build(work, True, True)[0] if cfg.get("race") else None
    t1 = time.time()
    # of a race check, two scenarios of three run in real time
    nsh = 1 if only is not None else 9 if binr else int(cfg.get("shards", 8))
    limit = 600 if tier == "quick" else 7200
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier)
    env.setdefault("GOMAXPROCS", "4")
    env.setdefault("GOMEMLIMIT", "2500MiB")
    clock = Clock(limit)
    shards = [Shard(binr if binr and (i if only is None else only) % 3 != 2 else binp, work, prop, i, nsh, env, clock, only) for i in range(nsh)]
    th = [threading.Thread(target=s.run) for s in shards]
    [t.start() for t in th]
    [t.join() for t in th]

    vios, notes, counters, sigs, samples, sites = [], [], {}, set(), [], set()
    evaluations = nontrivial = inconcl = 0
    rule = ""
    for s in shards:
        notes += s.problems
        ends = {e["idx"] for e in s.events if e["t"] == "end"}
        for e in s.events:
            if e["t"] == "end":
                evaluations += 1
                for k, v in (e.get("c") or {}).items():
                    counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
                if e.get("nt"):
                    nontrivial += 1
                    sigs.add(e["sig"])
                if e.get("inconclusive"):
                    inconcl += 1
                    if len(notes) < 20:
                        notes.append("scenario %d inconclusive: %s" % (e["idx"], e["inconclusive"][:300]))
                if "sample" in e:
                    samples.append({"scenario": e["idx"], "case": e["sample"]})
                for v in e.get("vios") or []:
                    vios.append(dict(v, idx=e["idx"], trace=e.get("trace")))
            elif e["t"] == "vio":
                # the scenario was cut short after it had found a violation
                if e["idx"] not in ends:
                    for v in e["vios"]:
                        vios.append(dict(v, idx=e["idx"], trace=e.get("trace")))
            elif e["t"] == "stall":
                if e["class"] in ("lock-stall", "spin"):
                    vios.append({"kind": e["class"], "detail": e["detail"], "idx": e["idx"], "trace": e.get("trace")})
                else:
                    inconcl += 1
                    notes.append("scenario %d stalled, not classified: %s" % (e["idx"], e["detail"][:1500]))
            elif e["t"] == "done":
                rule = e.get("rule", rule)
            elif e["t"] == "harness-error":
                notes.append("harness: " + e["msg"])
            if e["t"] in ("done", "stall"):
                sites.update(e.get("sites") or [])
        for idx, ended, log in s.crashes:
            kind, txt = crash_class(log)
            if kind == "library":
                vios.append({"kind": "crash", "detail": txt, "idx": idx})
            else:
                notes.append("process ended abnormally (%s) in scenario %d: %s" % (kind, idx, txt[:3000]))
    nraces = 0
    seen = set()
    if cfg.get("race"):
        for f, blk in race_blocks(work):
            lib, txt = race_class(blk)
            key = "".join(re.findall(r"\w+\.go:\d+", txt)[:2])
            if lib:
                nraces += 1
                if key not in seen:
                    seen.add(key)
                    vios.append({"kind": "data-race", "detail": txt, "idx": -1})
            elif len(notes) < 20:
                notes.append("race outside the library: " + txt[:1500])

    known = load_known(prop)
    real, kn = [], {}
    for v in vios:
        for rx, what in known:
            if rx.search(v["kind"] + " " + v["detail"]):
                kn[what] = kn.get(what, 0) + 1
                break
        else:
            real.append(v)
    for what in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))

    cov = {"evaluations": evaluations, "distinct_nontrivial": len(sigs), "rule": rule, "samples": samples[:3],
           "nontrivial_scenarios": nontrivial, "observed": dict(sorted(counters.items())),
           "inconclusive": inconcl, "instrumented": instr}
    if instr:
        cov["library_statements"] = {"instrumented": nsites, "executed": len(sites)}
    if cfg.get("race"):
        cov["race_detector"] = {"enabled": True, "library_races": nraces}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"), "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "build_s": round(t1 - t0, 2),
          "violations": len(real), "known_findings": kn, "notes": notes[:20]}
    if only is None and REPO == "/repo":
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    for n in notes[:20]:
        sys.stderr.write("note: %s\n" % n)
    print("%s %s: %d scenarios (%d non-trivial, %d distinct), %d violations, %d inconclusive, build %.1fs, run %.1fs" % (
        prop, tier, evaluations, nontrivial, len(sigs), len(real), inconcl, t1 - t0, time.time() - t1))
    if real:
        rdir = os.path.join(HERE, "out", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-seed%d-%s.json" % (prop, seed, tier))
        json.dump({"property": prop, "seed": seed, "tier": tier,
                   "replay": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.py %s --only %d" % (seed, tier, prop, real[0]["idx"]),
                   "violations": real[:20]}, open(rp, "w"), indent=1)
        for v in real[:3]:
            print("  scenario %d [%s] %s" % (v["idx"], v["kind"], v["detail"][:600].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if evaluations == 0 or (not sigs and only is None):
        sys.stderr.write("check error: nothing observed\n")
        return 2
    return 0


if __name__ == "__main__":
    main()
