#!/usr/bin/env python3
"""Checks of the properties: TLC on the specifications, and the specifications' behaviours on the real code.

  run.py <property> [--tier quick|thorough]     the check of one property
  run.py --replay <file>                        runs a recorded violation again
  run.py --suite <suite>                        one suite, printing what fails (for development)
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CPUS = os.cpu_count() or 4


class Broken(Exception):
    """The machinery failed; nothing is known about the property."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------------------------------- building
_builds = {}
_build_lock = threading.Lock()


def build(crate="harness", profile="dev"):
    """Builds a harness crate from /repo's working tree; returns the binary."""
    with _build_lock:
        key = (crate, profile)
        if key not in _builds:
            env = dict(os.environ)
            env.pop("RUSTFLAGS", None)
            if crate == "poolh":
                env["RUSTFLAGS"] = "--cfg vp_hooks"
            t = time.time()
            name = crate
            cmd = ["cargo", "build", "--offline", "-q"]
            if "/" in crate:
                crate, name = crate.split("/")
                cmd += ["--bin", name]
            target = "target"
            if crate in ("harness-bare", "harness-few"):
                # the client without its feature "time" (the timer comes from the options), or without "caching-sha2-password"
                target = "target/" + crate[8:]
                cmd += ["--no-default-features", "--features", "caching" if crate == "harness-bare" else "time", "--target-dir", target]
                crate, name = "harness", "harness"
            if profile == "release":
                cmd.append("--release")
            p = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode and crate == "poolh":
                # without the hooks: fewer scheduling points
                log("poolh: no hooks (%s)" % p.stdout[-500:])
                env.pop("RUSTFLAGS")
                p = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                errors = "\n".join(l for l in p.stdout.split("\n"))[-3000:]
                _builds[key] = Broken("cargo build failed:\n" + errors)
            else:
                log("built %s in %.1f s" % (crate, time.time() - t))
                _builds[key] = os.path.join(VERIF, crate, target, "release" if profile == "release" else "debug", "vh" if name == "harness" else name)
        if isinstance(_builds[key], Exception):
            raise _builds[key]
        return _builds[key]


def refused(crate):
    """What the compiler says of the records that have derived models, if that is why a crate does not build (the library itself does)."""
    if crate != "dbh/models":
        return None
    cwd = os.path.join(VERIF, "dbh")
    env = {k: v for k, v in os.environ.items() if k != "RUSTFLAGS"}

    def cargo(*a):
        return subprocess.run(["cargo", "build", "--offline", "-q", *a], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with _build_lock:
        if cargo("-p", "mysql-connector").returncode or cargo("--bin", "mig").returncode:
            return None
        p = cargo("--bin", "records")
    return "derived models do not compile: " + p.stdout[max(0, p.stdout.find("error")):][:3000] if p.returncode else None


# --------------------------------------------------------------------------------------------- TLC
def tla(x):
    if isinstance(x, bool):
        return str(x).upper()
    if isinstance(x, str):
        return '"%s"' % x if not x.startswith("=") else x[1:]
    if isinstance(x, (list, set, frozenset)):
        return "{" + ", ".join(tla(e) for e in x) + "}"
    return str(x)


def cfg_text(consts, spec="Spec", invariants=(), properties=(), constraint=None, deadlock=False, symmetry=None, view=None, extra=""):
    t = "SPECIFICATION %s\n" % spec
    if consts:
        t += "CONSTANTS\n" + "".join("  %s = %s\n" % (k, tla(v)) for k, v in consts.items())
    if invariants:
        t += "INVARIANTS " + " ".join(invariants) + "\n"
    if properties:
        t += "PROPERTIES " + " ".join(properties) + "\n"
    if constraint:
        t += "CONSTRAINT %s\n" % constraint
    if symmetry:
        t += "SYMMETRY %s\n" % symmetry
    if view:
        t += "VIEW %s\n" % view
    return t + extra + "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")


def tlc_run(module, cfg, work, workers=4, simulate=None, mem="6g", timeout=3000, on_line=None, env=None):
    """Runs TLC. on_line gets every line TLC prints through PrintT("@@...") (without the marker).
    Returns {states, distinct, error: text or None}."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=work)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, "x.cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + mem, "-cp", CP, "tlc2.TLC", "-noTE", "-metadir", os.path.join(d, "meta"),
           "-config", "x.cfg", "-workers", str(workers)]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(SEED)]
    cmd.append(module + ".tla")
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
    killer = threading.Timer(timeout, p.kill)
    killer.start()
    out = []
    try:
        for line in p.stdout:
            if line.startswith('"@@'):
                if on_line:
                    on_line(json.loads(line)[2:])
            else:
                out.append(line)
                if len(out) > 20000:
                    del out[5000:10000]
        p.wait()
    finally:
        killer.cancel()
        if p.poll() is None:
            p.kill()
    text = "".join(out)
    res = {"states": 0, "distinct": 0, "error": None, "text": text}
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", text):
        res["states"], res["distinct"] = (int(x.replace(",", "")) for x in m.groups())
    m = re.search(r"The number of states generated: ([\d,]+)", text)
    if m and simulate:
        res["states"] = res["distinct"] = int(m.group(1).replace(",", ""))
    ok = "Model checking completed. No error has been found." in text or (simulate and p.returncode == 0)
    if not ok or "Error:" in text:
        at = text.find("*** ") if "semantic analysis failed" in text else text.find("Error:")
        res["error"] = text[at if at >= 0 else -3000:][:6000]
    shutil.rmtree(d, ignore_errors=True)
    return res


def tlc(module, cfg, work, workers=4, simulate=None, mem="6g", timeout=3000, on_line=None, env=None):
    """As tlc_run. While mutations are tried, what TLC printed is kept, as it does not depend on the code."""
    cache = os.environ.get("VP_TLC_CACHE")
    if cache and not env:
        names = [module]
        for m in names:
            with open(os.path.join(SPEC, m + ".tla")) as f:
                t = f.read()
            names += [x for x in re.findall(r"\w+", t) if x not in names and os.path.exists(os.path.join(SPEC, x + ".tla"))]
        specs = [open(os.path.join(SPEC, m + ".tla")).read() for m in sorted(names)]
        key = os.path.join(cache, module + "-" + hashlib.sha256(repr((module, cfg, simulate, SEED, specs)).encode()).hexdigest()[:24])
        if os.path.exists(key + ".json"):
            if on_line:
                with open(key + ".lines") as f:
                    for l in f:
                        on_line(l.rstrip("\n"))
            with open(key + ".json") as f:
                return json.load(f)
        kept = open(key + ".lines.%d" % os.getpid(), "w")
        lock = threading.Lock()

        def both(l):
            with lock:
                kept.write(l + "\n")
            if on_line:
                on_line(l)
        r = tlc_run(module, cfg, work, workers, simulate, mem, timeout, both)
        kept.close()
        if not r["error"]:
            os.rename(kept.name, key + ".lines")
            with open(key + ".json", "w") as f:
                json.dump(r, f)
        return r
    return tlc_run(module, cfg, work, workers, simulate, mem, timeout, on_line, env)


# --------------------------------------------------------------------------------------------- harness
STUCK = int(os.environ.get("VP_STUCK", "60"))


def run_shard(binary, mode, path, stuck=STUCK):
    """Runs the scenarios of a file on the real code; survives crashes and hangs of the process."""
    failures, total, calls, skip, extra = [], 0, 0, 0, {}
    nlines = sum(1 for _ in open(path))
    prog = path + ".progress"
    env = dict(os.environ, VERIF_SEED=str(SEED))
    crashes = 0
    while skip < nlines:
        open(prog, "w").close()
        errf = tempfile.TemporaryFile(mode="w+", dir=os.path.dirname(path))
        outf = tempfile.TemporaryFile(mode="w+", dir=os.path.dirname(path))
        p = subprocess.Popen([binary, mode, path, prog, str(skip)], stdout=outf, stderr=errf, env=env)
        last, since = None, time.time()
        hung = False
        while True:
            try:
                p.wait(0.5)
                break
            except subprocess.TimeoutExpired:
                now = open(prog).read()
                if now != last:
                    last, since = now, time.time()
                elif time.time() - since > stuck:
                    hung = True
                    p.kill()
                    p.wait()
                    break
        outf.seek(0)
        done = False
        for l in outf:
            try:
                r = json.loads(l)
            except ValueError:
                continue
            if "total" in r:
                total += r["total"]
                calls += r.get("calls", 0)
                done = True
                for k, v in r.items():
                    if k not in ("total", "calls", "failures"):
                        extra[k] = max(extra.get(k, v), v) if isinstance(v, (int, float)) else v
            else:
                failures.append((r["i"], r["errors"]))
        errf.seek(0)
        err = errf.read()[-2000:]
        if p.returncode == 3 or "HARNESS:" in err:
            raise Broken("harness: " + err)
        if done and p.returncode == 0:
            break
        try:
            at = int(open(prog).read().split()[0])
        except (IndexError, ValueError):
            raise Broken("harness died at start (%s): %s" % (p.returncode, err))
        crashes += 1
        failures.append((at, ["no end within %d s" % stuck if hung else "process died with status %s: %s" % (p.returncode, err[-300:])]))
        total += at + 1 - skip
        skip = at + 1
        if hung or crashes >= 5:
            break
    return failures, total, calls, extra


class Shards:
    """Distributes scenarios over files."""

    def __init__(self, work, name, k):
        self.dir = tempfile.mkdtemp(prefix=name + "-", dir=work)
        self.paths = [os.path.join(self.dir, "s%d.jsonl" % i) for i in range(k)]
        self.files = [open(p, "w") for p in self.paths]
        self.n = 0
        self.samples = []
        self.lock = threading.Lock()

    def add(self, line):
        with self.lock:
            self.files[self.n % len(self.files)].write(line + "\n")
            if self.n in (0, 1000, 20000):
                self.samples.append(line[:1500])
            self.n += 1

    def close(self):
        for f in self.files:
            f.close()

    def scenario(self, shard, i):
        with open(self.paths[shard]) as f:
            for k, l in enumerate(f):
                if k == i:
                    return l.strip()

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def run_shards(binary, mode, sh, stuck=STUCK):
    res = []
    total = calls = 0
    extra = {}
    with ThreadPoolExecutor(len(sh.paths)) as ex:
        for k, (failures, t, c, e) in enumerate(ex.map(lambda p: run_shard(binary, mode, p, stuck), sh.paths)):
            total += t
            calls += c
            for kk, v in e.items():
                extra[kk] = max(extra.get(kk, v), v) if isinstance(v, (int, float)) else v
            for i, errors in failures:
                res.append((sh.scenario(k, i), errors))
    return res, total, calls, extra


# --------------------------------------------------------------------------------------------- main
def known_findings():
    out = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for l in f:
            m = re.match(r"known: property=(\S+) key=(\S+) \| (.*)", l)
            if m:
                out.append(m.groups())
    return out


def check(prop, tier):
    import suites
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        names = suites.PROPS[prop][tier]
        results = suites.run_suites(names, work, tier)
        for n, r in results:
            if r.get("error"):
                raise Broken("suite %s: %s" % (n, r["error"]))
        known = {k: d for p, k, d in known_findings() if p == prop}
        violations, findings = [], {}
        for n, r in results:
            for v in r["violations"]:
                k = v.get("known")
                if k in known:
                    findings.setdefault(k, 0)
                    findings[k] += 1
                else:
                    violations.append((n, v))
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        cov = {
            "states": sum(r.get("distinct", 0) for _, r in results),
            "transitions": sum(r.get("states", 0) for _, r in results),
            "traces_validated_against_impl": sum(r.get("traces", 0) for _, r in results),
            "calls_on_the_implementation": sum(r.get("calls", 0) for _, r in results),
            "suites": {n: {k: v for k, v in r.items() if k in ("states", "distinct", "traces", "calls", "seconds", "bounds", "info") and v is not None} for n, r in results},
            "samples": [s for _, r in results for s in r.get("samples", [])[:2]][:8],
            "exhaustive": all(r.get("exhaustive", False) for _, r in results),
        }
        ev = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": cov,
              "assumptions": suites.ASSUMPTIONS.get(prop, []) + suites.ASSUMPTIONS["*"],
              "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, d in sorted(known.items()):
            if k in findings:
                print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, d, findings[k]))
        if violations:
            by = {}
            for n, v in violations:
                by.setdefault(n, []).append(v)
            for n, vs in by.items():
                log("suite %s: %d violations, e.g.:" % (n, len(vs)))
                for v in vs[:3]:
                    log("   ", json.dumps(v["errors"])[:1000])
            n, v = violations[0]
            path = os.path.join(VERIF, "evidence", "replay", "%s.json" % prop)
            with open(path, "w") as f:
                json.dump({"property": prop, "suite": n, **v}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        log("%s: %d model states, %d behaviours on the real code, %.1f s" % (prop, cov["states"], cov["traces_validated_against_impl"], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    import suites
    with open(path) as f:
        r = json.load(f)
    work = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        vs = suites.replay(r, work)
        for v in vs:
            print(json.dumps(v)[:3000])
        if vs:
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        print("the recorded violation does not occur")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--suite")
    a = ap.parse_args()
    try:
        if a.replay:
            return replay(a.replay)
        if a.suite:
            import suites
            work = tempfile.mkdtemp(prefix="vp-suite-")
            try:
                bad = 0
                for n, r in suites.run_suites(a.suite.split(","), work, a.tier):
                    vs = r.pop("violations", [])
                    r.pop("samples", None)
                    print(n, json.dumps(r)[:int(os.environ.get("ERRW", "900"))].replace("\\n", "\n"))
                    for v in vs[:int(os.environ.get("SHOW", "3"))]:
                        print(json.dumps(v)[:int(os.environ.get("WIDTH", "3000"))])
                    bad += len(vs)
                    print(n, len(vs), "violations")
                return 1 if bad else 0
            finally:
                shutil.rmtree(work, ignore_errors=True)
        return check(a.property, a.tier)
    except Broken as e:
        log("BROKEN:", e)
        return 2


if __name__ == "__main__":
    # the suites module imports this one
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main())
