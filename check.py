#!/usr/bin/env python3
"""Runs the check of one property.  usage: check.py ID | check.py --setup | check.py --replay FILE

Builds the property's monitor program from /verif/harness against the current /repo tree (plain, with schedule
perturbation points injected through a build overlay, and with the race detector), runs it, and reports.
exit 0: held on everything observed; 1 with a VIOLATION line: broken; 2: no verdict."""
import json, os, re, shutil, signal, struct, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
GOROOT = "/opt/veriftools/go1.27.3"
# packages that get perturbation points (those with shared state)
PERTURB = ["hashmap", "lock", "cache", "fastio", "mmap", "keystore", "pool/gopool", "pool/buffer", "buffer", "uuid", "websocket"]
FLAGS = {"plain": [], "perturb": ["-tags", "perturb"], "race": ["-race"]}
RSS_LIMIT = 9 << 30


def go_env(work):
    e = dict(os.environ)
    e.update(PATH=GOROOT + "/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin", GOTOOLCHAIN="local", GOPROXY="off",
             GOWORK="off", GOENV="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOSUMDB="off", GONOSUMDB="*",
             GOFLAGS="-mod=mod", HOME="/root", CGO_ENABLED="1", LANG="C.UTF-8", GOTRACEBACK="all")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.pop("GODEBUG", None)
    return e


def modfile(work):
    s = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO)
    f = os.path.join(work, "go.mod")
    open(f, "w").write(s)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(work, "go.sum"))
    return f


def overlay(work, env, mf):
    gen = os.path.join(work, "perturbgen")
    r = subprocess.run(["go", "build", "-modfile", mf, "-o", gen, "./perturbgen"], cwd=HARNESS, env=env, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    r = subprocess.run([gen, REPO, os.path.join(work, "ov")] + PERTURB, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    return os.path.join(work, "ov", "overlay.json"), r.stdout.strip()


def build(work, env, mf, ov, cmd, variant):
    """Returns (binary, note, error)."""
    out = os.path.join(work, cmd + "-" + variant)
    base = ["go", "build", "-modfile", mf, "-o", out]
    # several go commands may not share one modfile while it is being completed
    my = os.path.join(work, "mod-" + variant)
    os.makedirs(my, exist_ok=True)
    shutil.copy(mf, my); shutil.copy(os.path.join(work, "go.sum"), my)
    base[3] = os.path.join(my, "go.mod")
    tries = []
    if variant in ("perturb", "race") and ov:
        tries.append((FLAGS[variant] + ([] if variant == "perturb" else ["-tags", "perturb"]) + ["-overlay", ov], "perturbation points on"))
    tries.append(([f for f in FLAGS[variant] if f not in ("-tags", "perturb")], "" if variant == "plain" else "no perturbation points"))
    err = ""
    for fl, note in tries:
        r = subprocess.run(base + fl + ["./cmd/" + cmd], cwd=HARNESS, env=env, capture_output=True, text=True)
        if r.returncode == 0:
            return out, note, ""
        err = r.stderr
    return None, "", err


def rss_tree(pid):
    try:
        for l in open(f"/proc/{pid}/status"):
            if l.startswith("VmRSS"):
                return int(l.split()[1]) * 1024
    except OSError:
        pass
    return 0


def races_of(text):
    """Race report blocks, as (signature, block)."""
    out = {}
    for b in text.split("=================="):
        if "WARNING: DATA RACE" not in b:
            continue
        # a channel closed while another goroutine sends has a defined outcome (the send panics), which the monitors see
        if "runtime.closechan" in b and "runtime.chansend" in b:
            continue
        # top frames inside gofer, of the two accesses
        fr = re.findall(r"^\s+(\S*donnie4w/gofer\S*)\(", b, re.M)
        acc = []
        for part in re.split(r"\n\s*\n", b)[:2]:
            m = re.findall(r"^\s+(\S+)\(", part, re.M)
            g = [x for x in m if "donnie4w/gofer" in x]
            acc.append((g or m or ["?"])[0])
        sig = "data-race " + " / ".join(sorted(set(a.split("donnie4w/gofer/")[-1] for a in acc)))
        out.setdefault(sig, (b.strip()[:5000], bool(fr)))
    return out


class Child:
    def __init__(self, prop, tier, variant, seed, binary, work, only=None):
        self.prop, self.tier, self.variant, self.seed, self.binary, self.work, self.only = prop, tier, variant, seed, binary, work, only
        self.violations, self.problems, self.res, self.hashes = [], [], None, set()

    def run(self, limit):
        d = os.path.join(self.work, "run-" + self.variant)
        shutil.rmtree(d, ignore_errors=True)
        tmp = os.path.join(d, "tmp"); os.makedirs(tmp)
        out = os.path.join(d, "result.json")
        env = go_env(self.work)
        env.update(GORACE=f"halt_on_error=0 exitcode=0 history_size=3 log_path={d}/race", TMPDIR=tmp)
        args = [self.binary, "-prop", self.prop, "-tier", self.tier, "-variant", self.variant, "-seed", str(self.seed), "-out", out, "-tmp", tmp]
        if self.only:
            args += ["-only", self.only]
        so, se = open(d + "/stdout", "wb"), open(d + "/stderr", "wb")
        t0 = time.time()
        p = subprocess.Popen(args, cwd=tmp, env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=se, start_new_session=True)
        hung = big = False
        while p.poll() is None:
            time.sleep(0.1)
            if rss_tree(p.pid) > RSS_LIMIT:
                big = True; break
            if time.time() - t0 > limit:
                hung = True; break
        if hung or big:
            try:
                p.send_signal(signal.SIGQUIT)
                p.wait(15)
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        rc = p.wait()
        so.close(); se.close()
        err = open(d + "/stderr", errors="replace").read()
        races = ""
        for f in sorted(os.listdir(d)):
            if f.startswith("race."):
                races += open(os.path.join(d, f), errors="replace").read()
        for sig, (blk, in_gofer) in races_of(races).items():
            # a race on the monitor's own data that gofer was to protect counts too
            self.violations.append(dict(kind="data-race", sig=sig, detail=blk, case=""))
        if os.path.exists(out):
            try:
                self.res = json.load(open(out))
            except ValueError:
                self.problems.append("unreadable result file")
        if self.res:
            self.violations += self.res["violations"] or []
            b = open(out + ".distinct", "rb").read()
            self.hashes = set(struct.unpack("<%dQ" % (len(b) // 8), b))
        elif os.path.exists(out + ".viol"):  # it died after reporting
            for l in open(out + ".viol"):
                try:
                    self.violations.append(json.loads(l))
                except ValueError:
                    pass
        if big:
            self.violations.append(dict(kind="memory", sig="unbounded-memory", detail="resident memory above %d bytes\n" % RSS_LIMIT + err[-3000:], case=""))
        elif hung:
            self.problems.append("did not end within %d s\n%s" % (limit, err[:6000]))
        elif rc != 0 and not self.violations:
            first = err[:4000]
            # the goroutine that crashed comes first in the dump
            m = re.search(r"^(panic: |fatal error: |unexpected fault|SIG)", err, re.M)
            crash = err[m.start():] if m else ""
            top = "\n\n".join(crash.split("\n\n")[:3])
            # a broken heap shows up anywhere, and nothing but the code under test handles raw memory here
            broken = re.match(r"fatal error: |unexpected fault|SIGSEGV|SIGBUS|panic: runtime error: invalid memory address.*\n\[signal SIG(BUS|SEGV).*addr=0x(?!0 )[0-9a-f]{4,}", crash) \
                and not re.search(r"out of memory|cannot allocate|newosproc|pthread_create|thread exhaustion", crash[:600])
            if m and ("donnie4w/gofer" in top or broken):
                line = crash.split("\n")[0]
                self.violations.append(dict(kind="crash", sig="crash: " + re.sub(r"0x[0-9a-f]+|\d+", "N", line)[:120], detail=crash[:5000], case=""))
            else:
                self.problems.append("exit status %d\n%s" % (rc, first))
        elif self.res is None and not self.violations:
            self.problems.append("no result written (exit status %d)\n%s" % (rc, err[:3000]))
        self.wall = time.time() - t0
        shutil.rmtree(d, ignore_errors=True)


def known(prop):
    out = []
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) sig="([^"]*)" (.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main(prop, only=None, variant=None, seed=None, tier=None, rdetail=None):
    t0 = time.time()
    spec = json.load(open(os.path.join(ROOT, "checks.json")))[prop]
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    except ValueError:
        seed = 1
    variants = [variant] if variant else spec["variants"]
    if os.environ.get("VERIF_VARIANTS"):
        variants = os.environ["VERIF_VARIANTS"].split(",")
    work = os.path.join(BUILD, "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return check(prop, spec, tier, seed, variants, work, t0, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, spec, tier, seed, variants, work, t0, only):
    env = go_env(work)
    mf = modfile(work)
    ov = None
    notes = []
    if any(v != "plain" for v in variants):
        ov, msg = overlay(work, env, mf)
        notes.append(("overlay: " + msg.strip())[:300])
    children, errs = [], []

    def one(v):
        b, note, err = build(work, env, mf, ov, spec["cmd"], v)
        if not b:
            errs.append("%s: %s" % (v, err)); return
        if note:
            notes.append(v + ": " + note)
        children.append(Child(prop, tier, v, seed, b, work, only))
    ths = [threading.Thread(target=one, args=(v,)) for v in variants]
    [t.start() for t in ths]; [t.join() for t in ths]
    if errs:
        print("BUILD FAILED\n" + "\n".join(errs)[:6000])
        return 2
    t_build = time.time() - t0
    limit = 420 if tier == "quick" else 5400
    ths = [threading.Thread(target=c.run, args=(limit,)) for c in children]
    [t.start() for t in ths]; [t.join() for t in ths]
    # evidence
    distinct, evals, samples, observed, rule, problems, viol = set(), 0, [], {}, "", [], []
    for c in children:
        for pr in c.problems:
            problems.append("[%s] %s" % (c.variant, pr))
        for v in c.violations:
            viol.append(dict(v, variant=c.variant))
        if not c.res:
            continue
        evals += c.res["evaluations"]
        distinct |= c.hashes
        for s in c.res["samples"] or []:
            if len(samples) < 6:
                samples.append(dict(variant=c.variant, case=s))
        rule = c.res["rule"] or rule
        for k, n in (c.res["observed"] or {}).items():
            observed.setdefault(c.variant, {})[k] = n
        for i in c.res["inconclusive"] or []:
            problems.append("[%s] inconclusive: %s" % (c.variant, i))
        if not c.res["complete"] and not c.violations:
            problems.append("[%s] incomplete run" % c.variant)
    kn, new, seen_known = known(prop), [], set()
    for v in viol:
        for sig, what in kn:
            if sig == v["sig"]:
                seen_known.add((sig, what)); break
        else:
            new.append(v)
    if not new and not problems and not only and (evals == 0 or not distinct or not samples):
        problems.append("the monitors observed nothing")
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"],
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=rule, samples=samples,
                            observed=observed, runs=[dict(variant=c.variant, wall_s=round(c.wall, 1)) for c in children],
                            build_notes=notes, build_s=round(t_build, 1), inconclusive=problems),
              assumptions=["Go toolchain, race detector and the reference models in /verif/harness are right",
                           "decides the executions observed in this run, nothing beyond them"],
              wall_s=round(time.time() - t0, 1), violations=len(new))
    if not only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for sig, what in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s %s: %d evaluations, %d distinct, build %.1fs, runs %s" % (prop, tier, evals, len(distinct), t_build,
          ", ".join("%s %.1fs" % (c.variant, c.wall) for c in children)))
    if new:
        rd = os.path.join(ROOT, "evidence", "replays"); os.makedirs(rd, exist_ok=True)
        done = set()
        for v in new:
            if v["sig"] in done:
                continue
            done.add(v["sig"])
            path = os.path.join(rd, "%s-%s-%d-%d.json" % (prop, v["variant"], seed, len(done)))
            json.dump(dict(property=prop, tier=tier, seed=seed, variant=v["variant"], case=v["case"], sig=v["sig"], detail=v["detail"],
                           how="python3 check.py --replay " + path), open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] %s %s\n    %s" % (v["variant"], v["sig"], v["case"], v["detail"][:1500].replace("\n", "\n    ")))
        for p_ in problems[:5]:
            print("note:", p_[:500])
        return 1
    if problems:
        print("NO VERDICT\n" + "\n".join(p[:3000] for p in problems[:10]))
        return 2
    return 0


def setup():
    work = os.path.join(BUILD, "setup-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        env = go_env(work); mf = modfile(work)
        ov, msg = overlay(work, env, mf)
        print("overlay:", msg)
        cmds = sorted({s["cmd"] for s in json.load(open(os.path.join(ROOT, "checks.json"))).values()})
        bad = 0
        for cmd in cmds:
            if not os.path.isdir(os.path.join(HARNESS, "cmd", cmd)):
                continue
            b, _, err = build(work, env, mf, ov, cmd, "plain")
            print(cmd, "ok" if b else "FAILED\n" + err)
            bad += not b
        return 1 if bad or not ov else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a == ["--setup"]:
        sys.exit(setup())
    if len(a) == 2 and a[0] == "--replay":
        r = json.load(open(a[1]))
        sys.exit(main(r["property"], only=r["case"] or None, variant=r["variant"], seed=r["seed"], tier=r["tier"]))
    if len(a) != 1:
        print(__doc__); sys.exit(2)
    sys.exit(main(a[0]))
