#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough] [--replay FILE]

Builds the checks against the working tree of /repo, runs them in parallel
shards, merges what they covered into evidence/ID.json.

exit 0  the property held on everything explored
exit 1  it does not; prints VIOLATION property=ID replay=FILE
exit 2  no verdict (build failure, lack of memory, ...)
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from checks import CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")


def env_go():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off",
             GOFLAGS="-mod=mod", GOSUMDB="off",
             GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=e.get("VERIF_GOCACHE", "/root/.cache/go-build"))
    e["PATH"] = e.get("PATH", "") + ":/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/usr/local/go/bin"
    for k in list(e):
        if k.startswith("RAPID_") or k in ("GODEBUG", "GOMAXPROCS", "GOGC", "GOMEMLIMIT"):
            del e[k]
    return e


def bail(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def build(variant, out, work):
    """Builds a test binary; returns None on success, else the output."""
    e = env_go()
    h = os.path.join(VERIF, "harness")
    modfile = os.path.join(work, "go.mod")
    if not os.path.exists(modfile):
        s = open(os.path.join(h, "go.mod")).read()
        open(modfile, "w").write(s.replace("=> /repo", "=> " + REPO))
        shutil.copy(os.path.join(h, "go.sum"), os.path.join(work, "go.sum"))
    cmd = ["go", "test", "-vet=off", "-modfile", modfile, "-c", "-o", out]
    pkg = "./props"
    cwd = h
    if variant == "race":
        e["CGO_ENABLED"] = "1"
        cmd += ["-race", "-tags", "verifrace"]
    elif variant == "386":
        e["GOARCH"] = "386"
    elif variant == "bridge":
        # in-package test files of the library, put in by an overlay
        ov = os.path.join(work, "overlay.json")
        rep = {}
        for f in glob.glob(os.path.join(h, "bridge", "*.go.txt")):
            rep[os.path.join(REPO, os.path.basename(f)[:-4])] = f
        for f in glob.glob(os.path.join(REPO, "*_test.go")):
            rep[f] = ""
        json.dump({"Replace": rep}, open(ov, "w"))
        mod2 = os.path.join(work, "repo.mod")
        shutil.copy(os.path.join(REPO, "go.mod"), mod2)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "repo.sum"))
        cmd = ["go", "test", "-vet=off", "-overlay", ov, "-modfile", mod2, "-c", "-o", out]
        pkg, cwd = ".", REPO
    r = subprocess.run(cmd + [pkg], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return None if r.returncode == 0 else r.stdout


class Shard:
    def __init__(self, binary, run, seed, i, n, tier, work, args=(), env=(), budget=600, scratch=None):
        self.dir = tempfile.mkdtemp(prefix="shard-", dir=work)
        self.out = os.path.join(self.dir, "out.txt")
        self.stats = os.path.join(self.dir, "stats.json")
        e = env_go()
        e.update(VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_SHARD=str(i), VERIF_SHARDS=str(n),
                 VERIF_STATS=self.stats, VERIF_BUDGET=str(budget), VERIF_SCRATCH=scratch or self.dir,
                 GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="all")
        e.update(dict(env))
        self.cmd = [binary, "-test.run", run, "-test.timeout", "0", "-test.failfast", "-test.v"]
        if "-bridge." not in binary:
            self.cmd += ["-rapid.seed", str(seed * 1000 + i + 1), "-rapid.shrinktime", "20s"] + list(args)
        self.env = e
        self.f = open(self.out, "w")
        self.p = subprocess.Popen(self.cmd, cwd=self.dir, env=e, stdout=self.f, stderr=subprocess.STDOUT,
                                  start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def text(self):
        self.f.close()
        return open(self.out, errors="replace").read()


def classify(rc, text):
    """-> 'ok' | 'violation' | 'error', reason"""
    if rc == 0:
        return "ok", ""
    if "VERIF-INFRA" in text:
        return "error", re.search(r"VERIF-INFRA:.*", text).group(0)
    if rc == 97 or rc == 98:
        m = re.search(r"VERIF-(DEADLOCK|ENDLESS):.*", text)
        return "violation", m.group(0) if m else "stuck"
    if "out of memory" in text or "cannot allocate memory" in text or "newosproc" in text:
        if "makeslice" not in text:
            return "error", "out of memory"
    if rc == 66 or "WARNING: DATA RACE" in text:
        i = text.find("WARNING: DATA RACE")
        j = text.find("==================", i + 10)
        rep = text[i:j if j > 0 else i + 6000]
        if "go-xmssmt" in rep.replace("verif/harness", ""):
            return "violation", "data race"
        return "error", "data race outside the library"
    if re.search(r"^\s*--- FAIL: ", text, re.M) and rc == 1:
        m = re.search(r"\[rapid\] (failed|panic) after[^\n]*", text) or re.search(r"_test.go:\d+: [^\n]*", text)
        return "violation", m.group(0) if m else "test failed"
    m = re.search(r"^(panic: |fatal error: |unexpected fault address|SIGSEGV|\[signal SIG)[^\n]*", text, re.M)
    if m:
        # the goroutine that crashed comes first
        rest = text[m.start():]
        parts = rest.split("\n\ngoroutine ")
        first = "\n\ngoroutine ".join(parts[:2])
        if "bwesterb/go-xmssmt" in first or "GOXMSSMT" in first:
            return "violation", m.group(0)
        return "error", "crash outside the library: " + m.group(0)
    return "error", "exit status %d" % rc


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only", help="regular expression of test names (development)")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    pid = a.id
    spec = CHECKS[pid]
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    seed = abs(seed) % (1 << 40) or 77
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    shm = None
    try:
        shm = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/dev/shm")
    except OSError:
        pass
    rc = 2
    try:
        rc = run(a, pid, spec, seed, t0, work, shm)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
        if shm:
            shutil.rmtree(shm, ignore_errors=True)
    sys.exit(rc)


def run(a, pid, spec, seed, t0, work, shm):
    bins = {}
    notes = []
    for v in spec.get("build", ["plain"]):
        out = os.path.join(work, "props-%s.test" % v)
        err = build(v, out, work)
        if err is not None:
            if v in spec.get("optional", []):
                notes.append("the %s part could not be built and was left out" % v)
                print(notes[-1])
                continue
            print(err)
            bail("the checks could not be built (%s)" % v)
        bins[v] = out
    env = {"VERIF_BIN_" + k.upper(): v for k, v in bins.items()}
    budget = spec.get("budget", {}).get(a.tier, 420 if a.tier == "quick" else 3000)
    hard = budget + (330 if a.tier == "quick" else 900)

    def shards_for(run, n):
        out = []
        for v in bins:
            pat = spec.get("run", {}).get(v, "^Test%s_" % pid)
            if pat is None:
                continue
            if run:
                pat = run
            k = spec.get("shards", {}).get(v, n)
            for i in range(k):
                out.append((v, pat, i, k))
        return out

    if a.replay:
        return replay(a, pid, spec, bins, env, work, shm)

    todo = shards_for(a.only, a.shards)
    running, done, failed = [], [], None
    errors = []
    limit = spec.get("parallel", 8)
    while todo or running:
        while todo and len(running) < limit and not failed:
            v, pat, i, k = todo.pop(0)
            left = max(5, int(budget - (time.time() - t0)))
            s = Shard(bins[v], pat, seed, i, k, a.tier, work, env=env, budget=left,
                      args=spec.get("args", []), scratch=shm)
            s.variant, s.i, s.k = v, i, k
            running.append(s)
        time.sleep(0.05)
        for s in list(running):
            r = s.p.poll()
            if r is None:
                if time.time() - t0 > hard:
                    s.kill()
                    running.remove(s)
                    text = s.text()
                    kind, why = classify(1, text)
                    if kind == "violation":
                        failed = failed or (s, text, why)
                    else:
                        errors.append("shard %d (%s) did not end in time: %s" % (s.i, s.variant, text[-400:]))
                continue
            running.remove(s)
            # children left behind
            try:
                os.killpg(s.p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            text = s.text()
            if r < 0:
                errors.append("shard %d killed by signal %d" % (s.i, -r))
                continue
            kind, why = classify(r, text)
            if kind == "ok":
                done.append(s)
            elif kind == "violation":
                failed = failed or (s, text, why)
            else:
                errors.append("shard %d (%s): %s\n%s" % (s.i, s.variant, why, text[-3000:]))
        if failed:
            for s in running:
                s.kill()
            break

    merged = dict(evaluations=0, skipped=0)
    hashes, samples, labels = set(), [], {}
    for s in done + ([failed[0]] if failed else []):
        try:
            st = json.load(open(s.stats))
        except (OSError, ValueError):
            continue
        merged["evaluations"] += st["evaluations"]
        merged["skipped"] += st["skipped_for_time"]
        hashes.update(st["nontrivial"] or [])
        samples += st["samples"] or []
        for k, v in (st["labels"] or {}).items():
            labels[k] = labels.get(k, 0) + v
    cov = dict(evaluations=merged["evaluations"], distinct_nontrivial=len(hashes), rule=spec["rule"],
               samples=samples[:12] or ["(no case finished)"], distribution=dict(sorted(labels.items())),
               skipped_for_time=merged["skipped"])
    if spec.get("exhaustive"):
        cov["exhaustive"] = False
    ev = dict(property=pid, tier=a.tier, seed=seed, level=spec["level"], coverage=cov,
              assumptions=spec.get("assumptions", []) + notes, wall_s=round(time.time() - t0, 1),
              violations=1 if failed else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)

    if failed:
        s, text, why = failed
        rep = save_replay(pid, s, text, why, seed, a.tier)
        print(tail_of(text))
        print("%s: %s" % (pid, why))
        print("VIOLATION property=%s replay=%s" % (pid, rep), flush=True)
        return 1
    if errors:
        print("\n".join(e[:1500] for e in errors[:3]))
        bail("no verdict")
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s: held on %d cases (%d distinct non-trivial) in %.1f s" %
          (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


def tail_of(text, n=60):
    lines = [l for l in text.split("\n") if l.strip()]
    return "\n".join(lines[-n:])


def save_replay(pid, s, text, why, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    f = glob.glob(os.path.join(s.dir, "testdata", "rapid", "*", "*.fail"))
    m = re.search(r"--- FAIL: (\S+)", text)
    rec = dict(property=pid, why=why, seed=seed, tier=tier, shard=s.i, shards=s.k, variant=s.variant,
               test=m.group(1) if m else None, failfile=None, output=tail_of(text, 200))
    if f:
        rec["failfile"] = open(f[0]).read()
        rec["test"] = os.path.basename(os.path.dirname(f[0]))
    h = hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (pid, h))
    json.dump(rec, open(p, "w"), indent=1)
    return p


def replay(a, pid, spec, bins, env, work, shm):
    rec = json.load(open(a.replay))
    args = list(spec.get("args", []))
    n = 1
    if rec.get("failfile"):
        ff = os.path.join(work, "x.fail")
        open(ff, "w").write(rec["failfile"])
        args += ["-rapid.failfile", ff]
    pat = "^%s$" % rec["test"].split("/")[0] if rec.get("test") else "^Test%s_" % pid
    s = Shard(bins[rec["variant"]], pat, rec["seed"], rec["shard"], rec["shards"], rec["tier"], work,
              env=env, args=args, scratch=shm)
    s.p.wait()
    text = s.text()
    kind, why = classify(s.p.returncode, text)
    print(tail_of(text))
    if kind == "violation":
        print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        return 1
    return 0 if kind == "ok" else 2


if __name__ == "__main__":
    main()
