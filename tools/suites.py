"""What is generated, replayed and validated, per property."""
import json, os, re, time, random, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import run
from run import tlc, cfg_text, build, Shards, run_shards, run_shard, refused, Broken, CPUS, SEED

SUITES = {}
# the crate a suite replays with
CRATE = {}
ASSUMPTIONS = {"*": [
    "TLC and the Rust compiler are sound; the scripted transport and the comparison in the harness report what the client did",
]}


def ints(*xs):
    """A set of integers for a configuration file."""
    out = []
    for x in xs:
        out += list(x) if isinstance(x, range) else [x]
    return "={%s}" % ",".join(map(str, out))


def gen(name, module, consts, mode="wire", invariants=(), quick=None, thorough=None, simulate=None, workers=4, emit="Emit", post=None, known=None, mem="4g", profile="dev", crate="harness", **kw):
    """A suite whose behaviours TLC generates from a specification (all of them within the bounds, or, with
    simulate, random ones) while it checks the invariants, and which are replayed on the real client."""
    def f(work, tier):
        c = dict(consts)
        c.update((thorough if tier == "thorough" else quick) or {})
        sim = simulate
        if sim and tier == "thorough":
            sim = (sim[0] * 10, sim[1])
        sh = Shards(work, name, CPUS)
        first = {}

        def line(l):
            if post:
                for x in post(l):
                    sh.add(x)
            else:
                sh.add(l)
        t = time.time()
        try:
            r = tlc(module, cfg_text(c, invariants=invariants, constraint=emit, **kw), work, workers=workers, simulate=sim, mem=mem, on_line=line)
            sh.close()
            if r["error"]:
                return {"error": r["error"], "violations": []}
            if sh.n == 0:
                return {"error": "no behaviours were generated", "violations": []}
            t1 = time.time()
            try:
                binary = build(crate, profile)
            except Broken:
                why = refused(crate)
                if not why:
                    raise
                return {"states": r["states"], "distinct": r["distinct"], "traces": 0, "violations": [{"mode": mode, "crate": crate, "errors": [why], "scenario": {"build": crate}}]}
            fails, total, calls, extra = run_shards(binary, mode, sh)
            vs = []
            for sc, errors in fails:
                v = {"mode": mode, "errors": errors, "scenario": json.loads(sc)}
                if crate != "harness":
                    v["crate"] = crate
                if known:
                    k = known(v)
                    if k:
                        v["known"] = k
                vs.append(v)
            return {"states": r["states"], "distinct": r["distinct"], "traces": total, "calls": calls, "samples": sh.samples, "violations": vs,
                    "exhaustive": not sim, "bounds": {k: v for k, v in c.items() if k not in ("Gen",)}, "seconds": [round(t1 - t, 1), round(time.time() - t1, 1)], "info": extra or None}
        finally:
            sh.remove()
    SUITES[name] = f
    CRATE[name] = crate
    return f


def run_suites(names, work, tier):
    out = []
    with ThreadPoolExecutor(4) as ex:
        # the build goes on while TLC generates
        for c in sorted({CRATE[n] for n in names if n in CRATE}):
            ex.submit(build, c)
        fs = [(n, ex.submit(SUITES[n], work, tier)) for n in names]
        for n, f in fs:
            out.append((n, f.result()))
    return out


def replay(r, work):
    if r.get("mode") == "pool":
        sc = r["scenario"] if isinstance(r["scenario"], list) else [r["scenario"]]
        lines = [x if isinstance(x, str) else json.dumps(x) for x in sc]
        buf = json.loads(lines[0]).get("kind") == "buf"
        kinds = _BK if buf else {"C13": _SAFE, "C14": ["wake", "slot", "hang"], "C15": ["slot", "report"]}[r["property"]]
        return pool_run(lines, work, kinds, "BufTrace" if buf else "PoolTrace", {"Task": "={1,2,3,4,5}", "Kinds": kinds})[0]
    if r.get("mode") == "lex":
        sh = Shards(work, "replay", 1)
        try:
            sh.add(json.dumps(r["scenario"]))
            sh.close()
            return [e for v in lex_check(sh, work)[0] for e in [v["errors"]]]
        finally:
            sh.remove()
    if r.get("mode") and "build" in r["scenario"]:
        why = refused(r["crate"])
        return [why] if why else []
    if r.get("mode"):
        p = os.path.join(work, "s.jsonl")
        with open(p, "w") as f:
            f.write(json.dumps(r["scenario"]) + "\n")
        fails, _, _, _ = run_shard(build(r.get("crate", "harness")), r["mode"], p)
        return [e for _, e in fails]
    return SUITES[r["suite"]](work, "quick")["violations"]


# ------------------------------------------------------------------------------------------- Session
SESSION_INV = ["TypeOK", "Pairing", "InSync", "Trusted", "Closing", "AliveOpen", "Progress"]
ROWSHAPES = ["rs0", "rs1", "rs2", "rsbg", "rsgb", "rserr0", "rserr1"]
MULTI = ["ok+ok", "ok+err", "ok+rs1", "rs1+ok", "rs1+err", "rs1+rs1", "rs1+rserr1", "rs0+rs1+ok", "ok+ok+rs1"]
ALLSHAPES = ["ok", "err", "rs3"] + ROWSHAPES + MULTI + ["junk", "infile", "empty", "baddef"]
FAULTS = ["stall", "cancel", "part", "partcancel", "eof", "reset", "badseq", "wstall", "wcancel", "wreset"]


def session(name, **kw):
    c = dict(MaxOps=3, Legacy=False, Ops=[], Shapes=["ok"], Secondary=["ok", "err", "rs1"], PShapes=["p10"], Faults=[], Gen=True, SlowR=0, SlowW=0, SlowHow="before", Wait=1000)
    extra = {k: kw.pop(k) for k in ("quick", "thorough", "simulate") if k in kw}
    c.update(kw)
    gen(name, "Session", c, invariants=SESSION_INV, **extra)


for leg in (False, True):
    s = "-legacy" if leg else ""
    session("session-text" + s, Legacy=leg, Ops=["query", "exec", "next", "one", "collect", "finish", "finish_inner", "into_inner", "columns", "cleanup", "drop_rs"],
            Shapes=ALLSHAPES, Secondary=["ok", "err", "rs1"] if leg else ["ok", "err", "rs1", "rs1+ok"], MaxOps=3, thorough=dict(MaxOps=4))
    session("session-long" + s, Legacy=leg, Ops=["query", "exec", "next", "collect"], Shapes=["ok", "err", "rs2", "rsbg", "rserr1", "rs1+rs1", "ok+rs1", "junk"],
            Secondary=["ok", "rs1"], MaxOps=4, thorough=dict(MaxOps=5))
    session("stmt" + s, Legacy=leg, Ops=["prepare", "squery", "sexec", "sexecbad", "query", "next", "collect", "finish"], PShapes=["p00", "p10", "p01", "p21", "perr", "pjunk"],
            Shapes=["ok", "rs1"], Secondary=["ok", "err", "rs1"] if leg else ["ok", "err", "rs2", "rs1+ok"], MaxOps=4 if not leg else 3, thorough=dict(MaxOps=5 if not leg else 4))
session("stmt-close", Ops=["prepare", "exec", "sexec", "squery", "drop_stmt", "cleanup", "disconnect", "query"], PShapes=["p00", "perr", "p21"],
        Shapes=["ok"], Secondary=["ok", "rs1"], MaxOps=4, thorough=dict(MaxOps=5))
session("faults-text", Ops=["query", "exec", "next", "collect", "one", "finish", "cleanup"], Shapes=["ok", "err", "rs1", "rs2", "rsbg", "rs1+ok", "ok+rs1", "rserr1"],
        Secondary=["ok", "rs1"], Faults=FAULTS, MaxOps=3, thorough=dict(MaxOps=4))
session("faults-stmt", Ops=["prepare", "squery", "sexec", "next", "exec"], PShapes=["p10", "p21"], Shapes=["ok", "rs1"],
        Secondary=["ok", "rs1"], Faults=FAULTS, MaxOps=3, thorough=dict(MaxOps=4))
session("faults-legacy", Legacy=True, Ops=["prepare", "query", "sexec", "next", "exec"], PShapes=["p10", "p21"], Shapes=["ok", "rs1"],
        Secondary=["ok", "rs1"], Faults=FAULTS, MaxOps=3, thorough=dict(MaxOps=4))
session("faults-pool", Ops=["recycle", "exec", "query", "next", "prepare"], PShapes=["p10"], Shapes=["ok", "rs2", "junk"],
        Secondary=["rs1"], Faults=["cancel", "partcancel", "stall", "eof", "badseq", "wcancel"], MaxOps=4,
        thorough=dict(Faults=FAULTS, Ops=["recycle", "exec", "query", "next", "prepare", "sexec"], Shapes=["ok", "rs1", "rs2", "junk", "ok+rs1"], Secondary=["ok", "rs1"]))
session("session-random", Ops=["query", "exec", "prepare", "squery", "sexec", "next", "one", "collect", "finish", "cleanup", "drop_rs", "columns"], PShapes=["p00", "p10", "p01", "p21", "perr"],
        Shapes=ALLSHAPES, Secondary=[x for x in ALLSHAPES if x not in ("junk", "infile", "empty", "baddef")], Faults=[], MaxOps=14, simulate=(1200, 200))
session("session-random-legacy", Legacy=True, Ops=["query", "exec", "prepare", "squery", "sexec", "next", "one", "collect", "finish", "cleanup", "drop_rs", "columns"], PShapes=["p00", "p10", "p01", "p21", "perr"],
        Shapes=ALLSHAPES, Secondary=[x for x in ALLSHAPES if x not in ("junk", "infile", "empty", "baddef")], Faults=[], MaxOps=14, simulate=(400, 200))
session("session-legacy", Legacy=True, Ops=["query", "exec", "next", "collect", "finish", "prepare", "sexec"], PShapes=["p01", "p21"], Shapes=["ok", "err", "rs1", "rs2", "rs1+ok", "rs1+rs1", "ok+rs1", "rserr1"],
        Secondary=["ok", "rs1"], MaxOps=3, thorough=dict(MaxOps=4))

# ------------------------------------------------------------------------------------------- Values
VALUES_INV = ["TextRoundTrip", "BinRoundTrip", "Distinguished"]
_W = "={1,2,3,5,6,7,8,9,13,14,15,16,17,22,62,63,64,65,250,251,260}"
_WT = ints(range(1, 81), 127, 128, 129, 250, 251, 252, 253, 255, 256, 257, 300, 512, 1000, 2000)
for fam in ("text", "bin", "param"):
    gen("values-" + fam, "Values", dict(Fam=fam, Widths=_W), thorough=dict(Widths=_WT), invariants=VALUES_INV, workers=1)
gen("values-wide", "Values", dict(Fam="wide", Widths="={1000,4096}"), thorough=dict(Widths="={500,1000,2047,2048,3000,4095,4096}"), invariants=VALUES_INV, workers=1)
gen("values-widest", "Values", dict(Fam="widest", Widths="={65535}"), invariants=VALUES_INV, workers=1)
gen("values-when", "Values", dict(Fam="when", Widths="={1}"), thorough=dict(Fam="allwhen"), invariants=VALUES_INV, workers=1)

# ------------------------------------------------------------------------------------------- Answers
for fam in ("ok", "end", "err", "cols"):
    gen("answers-" + fam, "Answers", dict(Fam=fam), invariants=["Denoted", "LengthsAgree", "Told"] if fam == "ok" else ["Told"], workers=1)

# ------------------------------------------------------------------------------------------- Framing
def model(name, module, consts, spec="Spec", quick=None, thorough=None, workers=4, mem="4g", **kw):
    """A suite that only checks the specification."""
    def f(work, tier):
        c = dict(consts)
        c.update((thorough if tier == "thorough" else quick) or {})
        t = time.time()
        r = tlc(module, cfg_text(c, spec=spec, **kw), work, workers=workers, mem=mem)
        return {"error": r["error"], "states": r["states"], "distinct": r["distinct"], "violations": [], "exhaustive": True,
                "bounds": {k: v for k, v in c.items()}, "seconds": [round(time.time() - t, 1)]}
    SUITES[name] = f


for m in (1, 2, 3, 5):
    model("framing-model-%d" % m, "Framing", dict(FMax=m, Fam="small", Sizes="={1}"), spec="NetSpec", invariants=["Delivered", "Agree", "NothingBad", "AsCut"], properties=["Ends"], workers=2)
M = 16777215
_BIG = [M - 8, M - 4, M - 2, M - 1, M, M + 1, M + 2, M + 5, 2 * M - 1, 2 * M, 2 * M + 1, 2 * M + 100, 3 * M - 1, 3 * M, 3 * M + 1, 4 * M]
_BIGT = _BIG + [M - 16, M - 9, M + 9, 2 * M - 5, 2 * M + 5, 4 * M - 1, 4 * M + 1, 5 * M, 6 * M - 1, 6 * M]
gen("framing-many", "Framing", dict(FMax=M, Fam="many", Sizes="={1000,5000}"), thorough=dict(Sizes="={700,4096,4097,66000}"), invariants=["CutJoin"])
gen("framing-big", "Framing", dict(FMax=M, Fam="big", Sizes="={%s}" % ",".join(map(str, _BIG))), thorough=dict(Sizes="={%s}" % ",".join(map(str, _BIGT))), invariants=["CutJoin"])
_SMALL = ints(range(2, 7), range(248, 259), 1000, range(65535, 65541), 70000)
gen("framing-small", "Framing", dict(FMax=M, Fam="small", Sizes=_SMALL), thorough=dict(Sizes=ints(range(2, 301), range(65530, 65561), 1000, 131072, 262144, 1000000)), invariants=["CutJoin"])
for fam in ("long", "seq", "wrap", "mseq", "slow"):
    gen("framing-" + fam, "Framing", dict(FMax=M, Fam=fam, Sizes="={1}"), invariants=["CutJoin"])

# ------------------------------------------------------------------------------------------- Auth
# time
FT = ["stall", "wstall", "fstall"]
session("time-read", Ops=["query", "exec", "prepare", "sexec", "next", "collect", "one"], PShapes=["p10"], Shapes=["ok", "err", "rs1", "rs2", "ok+rs1"], Secondary=["ok", "rs1"],
        Faults=["stall"], MaxOps=3, SlowR=990, thorough=dict(MaxOps=4))
session("time-write", Ops=["query", "exec", "prepare", "sexec", "next"], PShapes=["p00", "p10"], Shapes=["ok", "rs1"], Secondary=["ok", "rs1"],
        Faults=[], MaxOps=3, SlowR=500, SlowW=990, thorough=dict(MaxOps=4))
session("time-within", Ops=["query", "exec", "prepare", "sexec", "next", "collect", "one"], PShapes=["p10"], Shapes=["ok", "rs1", "ok+rs1"], Secondary=["ok", "rs1"],
        Faults=["stall"], MaxOps=2, SlowR=990, SlowHow="within", thorough=dict(MaxOps=3))
session("time-late", Ops=["query", "exec", "prepare", "sexec", "next", "collect", "one"], PShapes=["p10"], Shapes=["ok", "rs1", "ok+rs1"], Secondary=["ok", "rs1"],
        Faults=["stall"], MaxOps=2, SlowR=990, SlowW=990, SlowHow="late", thorough=dict(MaxOps=3))
session("time-stall", Ops=["query", "exec", "prepare", "squery", "sexec", "next", "collect", "one", "finish", "cleanup"], PShapes=["p10", "p21"],
        Shapes=["ok", "err", "rs1", "rs2", "rsbg", "ok+rs1"], Secondary=["ok", "rs1"], Faults=["stall", "part", "wstall", "fstall"], MaxOps=3, thorough=dict(MaxOps=4))
session("time-legacy", Legacy=True, Ops=["query", "exec", "prepare", "sexec", "next", "collect", "one"], PShapes=["p21"], Shapes=["ok", "rs1"], Secondary=["ok", "rs1"],
        Faults=["stall", "wstall", "fstall"], MaxOps=3, thorough=dict(MaxOps=4))
session("time-own", Ops=["query", "prepare", "sexec", "next", "collect"], PShapes=["p10"], Shapes=["ok", "rs1"], Secondary=["ok", "rs1"],
        Faults=["stall", "wstall", "fstall"], MaxOps=3, SlowR=990, crate="harness-bare", thorough=dict(MaxOps=4))
# other timeouts than a whole second
for _n, _w in (("odd", 1750), ("short", 40), ("long", 100000), ("longest", 2000000000)):
    session("time-" + _n, Ops=["query", "exec", "prepare", "sexec", "next", "collect"], PShapes=["p10"], Shapes=["ok", "rs1"], Secondary=["ok", "rs1"], Faults=FT, MaxOps=2, SlowR=_w - 10, Wait=_w, thorough=dict(MaxOps=3))
PLUGINS = ["native", "sha2", "clear"]
AUTH_INV = ["Secrecy", "Keys", "OnRequest", "Salted", "Accepted", "OneSwitch", "Errors", "Offers", "CapsOk"]
gen("auth-dialogue", "Auth", dict(Fam="dialogue", Plugins=PLUGINS, MaxSwitch="={2,4}", SlowR=0, SlowW=0, SlowHow="before", Wait=1000), thorough=dict(MaxSwitch="={1,2,3,4,5}"), invariants=AUTH_INV, workers=6)
gen("auth-late", "Auth", dict(Fam="dialogue", Plugins=PLUGINS, MaxSwitch="={2}", SlowR=990, SlowW=990, SlowHow="late", Wait=1000), invariants=AUTH_INV, workers=6)
gen("auth-slow", "Auth", dict(Fam="dialogue", Plugins=PLUGINS, MaxSwitch="={2}", SlowR=990, SlowW=990, SlowHow="before", Wait=1000), invariants=AUTH_INV, workers=6)
gen("auth-long-wait", "Auth", dict(Fam="dialogue", Plugins=PLUGINS, MaxSwitch="={2}", SlowR=99990, SlowW=99990, SlowHow="before", Wait=100000), invariants=AUTH_INV, workers=6)
gen("auth-odd-wait", "Auth", dict(Fam="dialogue", Plugins=PLUGINS, MaxSwitch="={2}", SlowR=1740, SlowW=1740, SlowHow="before", Wait=1750), invariants=AUTH_INV, workers=6)
gen("auth-own", "Auth", dict(Fam="dialogue", Plugins=PLUGINS, MaxSwitch="={2}", SlowR=0, SlowW=990, SlowHow="before", Wait=1000), invariants=AUTH_INV, workers=6, crate="harness-bare")
def _tcp(l):
    """For the TCP stream that comes with the client: no secure transport and nothing that takes long."""
    sc = json.loads(l)
    if not sc.get("secure") and sum(e.get("op") == "connect" for e in sc["ev"]) == 1 and not any(e["k"] in ("stall", "wstall", "fstall", "delay", "reset", "eof", "cancel") for e in sc["ev"]):
        yield l


# the client without its feature "caching-sha2-password"
gen("auth-few", "Auth", dict(Fam="dialogue", Plugins=["native", "clear"], MaxSwitch="={2,4}", SlowR=0, SlowW=0, SlowHow="before", Wait=1000), thorough=dict(MaxSwitch="={1,2,3,4,5}"), invariants=AUTH_INV, workers=6, crate="harness-few")
gen("handshake-few", "Auth", dict(Fam="hand", Plugins=["native", "clear"], MaxSwitch="={2}", SlowR=0, SlowW=0, SlowHow="before", Wait=1000), invariants=AUTH_INV, crate="harness-few")
gen("auth-tcp", "Auth", dict(Fam="dialogue", Plugins=PLUGINS, MaxSwitch="={2}", SlowR=0, SlowW=0, SlowHow="before", Wait=1000), mode="tcp", invariants=AUTH_INV, post=_tcp)
gen("auth-long", "Auth", dict(Fam="long", Plugins=PLUGINS, MaxSwitch="={2}", SlowR=0, SlowW=0, SlowHow="before", Wait=1000), invariants=AUTH_INV)
gen("handshake", "Auth", dict(Fam="hand", Plugins=PLUGINS, MaxSwitch="={2}", SlowR=0, SlowW=0, SlowHow="before", Wait=1000), invariants=AUTH_INV)

# ------------------------------------------------------------------------------------------- Malformed
_ALLM = ["trunc", "set", "inc", "explode", "del", "dup", "tail", "replace", "frame", "drop", "keys"]
_DIALOGUES = ["text", "textleg", "bin", "binleg", "auth1", "auth2", "auth3", "err", "greeterr", "old", "collect", "one", "finish"]


def mal(name, **kw):
    c = dict(Dialogues=_DIALOGUES, Muts=_ALLM, Vals=ints(0, 1, 2, 251, 252, 253, 254, 255), Depth=1, Stride=1, NCols=7)
    extra = {k: kw.pop(k) for k in ("quick", "thorough", "simulate", "spec", "known") if k in kw}
    c.update(kw)
    gen(name, "Malformed", c, mode="mal", invariants=["Decoder"], **extra)


mal("malformed", thorough=dict(NCols=11, Vals=ints(range(0, 256))))
mal("malformed-cells", Dialogues=["text", "bin"], Muts=["cells", "trunc"], NCols=11)
mal("malformed-random", Depth=3, NCols=11, spec="RSpec", simulate=(8000, 10))

# ------------------------------------------------------------------------------------------- Pool
def _ops(did):
    """The program of a task from what it did in a behaviour of PoolImpl."""
    out, i = [], 0
    while i < len(did):
        assert did[i] == "g", did
        i += 1
        op, pend, cancel = "g", 0, 0
        while i < len(did) and did[i] in "wsfc":
            if did[i] == "w":
                pend += 1
            elif did[i] == "s":
                pend += 1
                op += "s"
            elif did[i] == "f":
                op += "f"
            else:
                cancel = pend
            i += 1
        out.append(op + ("c%d" % cancel if cancel else ""))
        if i < len(did) and did[i] in "rb":
            out.append(did[i])
            i += 1
    return out


def pool_scenarios(name, work, source, tier):
    """Scenarios (json lines) of one source: ("gen", constants of PoolGen) or ("impl", constants of PoolImpl, number of behaviours)."""
    lines = []
    if source[0] in ("gen", "buf"):
        r = tlc("PoolGen" if source[0] == "gen" else "BufGen", cfg_text(source[1], constraint="Emit"), work, workers=2, on_line=lines.append)
    else:
        num = source[2] * (10 if tier == "thorough" else 1)

        def line(l):
            x = json.loads(l)
            progs = [_ops(d) for d in x["did"]] + [["l"] + ["g"] * x["n"] + ["r"] * x["n"]]
            lines.append(json.dumps({"n": x["n"], "progs": progs, "scheds": [x["steps"]]}))
        c = dict(source[1], Record=True)
        r = tlc("PoolImpl", cfg_text(c, constraint="Emit"), work, workers=1, simulate=(num, 400), on_line=line)
        lines = list(dict.fromkeys(lines))
    if r["error"]:
        raise Broken("%s: %s" % (name, r["error"]))
    return lines, r


def pool_run(lines, work, kinds, module, consts, random_runs=0, merge=1):
    """Explores the schedules of the scenarios on the real pool; TLC validates every trace. Returns (violations, info)."""
    binary = build("poolh")
    d = tempfile.mkdtemp(prefix="pool-", dir=work)
    k = min(CPUS * merge, len(lines))
    parts = [lines[i::k] for i in range(k)]

    def part(i):
        sc = os.path.join(d, "sc%d" % i)
        with open(sc, "w") as f:
            f.write("\n".join(parts[i]) + "\n")
        tr = os.path.join(d, "tr%d" % i)
        try:
            p = subprocess.run([binary, sc, tr], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
        except subprocess.TimeoutExpired:
            return [{"mode": "pool", "errors": ["the execution of one of these scenarios does not end"], "scenario": parts[i][:50]}], {}, None
        if p.returncode == 3:
            raise Broken("poolh: " + p.stderr[-1000:])
        if p.returncode:
            return [{"mode": "pool", "errors": ["the process died (%s): %s" % (p.returncode, p.stderr[-500:])], "scenario": parts[i][:50]}], {}, None
        info = json.loads(p.stdout)
        vs = [{"mode": "pool", "errors": ["panic: " + x["panic"]], "scenario": x["scenario"]} for x in info.pop("panics")]
        # as many items as the real pool made
        with open(tr) as f:
            most = max((e[2] for n in json.load(f)["nodes"] for e in n if isinstance(e[2], int)), default=1)
        r = tlc(module, cfg_text({**consts, "Item": ints(range(1, max(5, most) + 1))}, invariants=["Allowed", "Bounds"], view="View"), work, workers=1, mem="3g", env={"TRACES": tr})
        if r["error"]:
            m = re.search(r"Invariant (\w+) is violated", r["text"])
            if not m:
                raise Broken("%s: %s" % (module, r["error"]))
            events = re.findall(r'/\\ at = <<(.*?)>>', r["text"])
            root = int(re.search(r"/\\ node = (\d+)", r["text"]).group(1))
            why = re.findall(r'/\\ bad = "(.*?)"', r["text"])[-1]
            with open(tr) as f:
                roots = json.load(f)["roots"]
            idx = [x[2] for x in roots if x[1] == root][0]
            vs.append({"mode": "pool", "errors": ["the last of these events breaks '%s' (%s)" % (why, m.group(1)), " ".join("(%s)" % e.replace('"', "") for e in events if e)],
                       "scenario": json.loads(parts[i][idx]), "why": why})
        os.unlink(tr)
        return vs, info, r
    vs, tot, states, distinct = [], {}, 0, 0
    with ThreadPoolExecutor(CPUS) as ex:
        for v, info, r in ex.map(part, range(k)):
            vs += v
            for a, b in info.items():
                tot[a] = tot.get(a, 0) + b
            if r:
                states += r["states"]
                distinct += r["distinct"]
    shutil.rmtree(d, ignore_errors=True)
    return vs, tot, states, distinct


def pool(name, sources, kinds, thorough=None):
    def f(work, tier):
        t = time.time()
        lines, st, di = [], 0, 0
        srcs = (thorough if tier == "thorough" and thorough else sources)
        with ThreadPoolExecutor(4) as ex:
            for ls, r in ex.map(lambda s: pool_scenarios(name, work, s, tier), srcs):
                lines += ls
                st, di = st + r["states"], di + r["distinct"]
        t1 = time.time()
        if srcs[0][0] == "buf":
            vs, tot, s2, d2 = pool_run(lines, work, kinds, "BufTrace", {"Task": "={1,2,3,4}", "Kinds": kinds})
        else:
            vs, tot, s2, d2 = pool_run(lines, work, kinds, "PoolTrace", {"Task": "={1,2,3,4,5}", "Kinds": kinds})
        return {"states": st + s2, "distinct": di + d2, "traces": tot.get("traces", 0), "calls": tot.get("runs", 0), "samples": lines[:2], "violations": vs,
                "exhaustive": False, "bounds": {"sources": [str(x) for x in srcs]}, "info": tot, "seconds": [round(t1 - t, 1), round(time.time() - t1, 1)]}
    SUITES[name] = f


def _gen(fam, tasks, limits, pre):
    return ("gen", {"Fam": fam, "NTasks": tasks, "Limits": limits, "Pre": pre})


def _impl(tasks, n, rounds, num, fail=True, cancel=True, brk=True):
    return ("impl", {"Task": ints(range(1, tasks + 1)), "Item": "={1,2}", "N": n, "Rounds": rounds, "MayFail": fail, "MayCancel": cancel, "MayBreak": brk}, num)


for n, (tasks, lim, rounds, fail) in {"pool-model": ("={1,2}", 1, 2, True), "pool-model-2": ("={1,2,3}", 2, 1, True)}.items():
    model(n, "PoolImpl", {"Task": tasks, "Item": "={1,2}", "N": lim, "Rounds": rounds, "MayFail": fail, "MayCancel": True, "MayBreak": True, "Record": False},
          invariants=["Accepted", "QuietOk", "CountOk", "Bounds"])
model("pool-live", "PoolImpl", {"Task": "={1,2}", "Item": "={1,2}", "N": 1, "Rounds": 0, "MayFail": True, "MayCancel": False, "MayBreak": True, "Record": False},
      thorough=dict(Task="={1,2,3}", MayFail=False, MayBreak=False), invariants=["Accepted", "QuietOk", "CountOk", "Bounds"], properties=["Served"])
_SAFE = ["limit", "reuse", "share", "use", "lost"]
_T = lambda *fams: [_gen(f, "={3}", l, 2) for f in fams for l in ("={1}", "={2}")] + [_gen("two", "={2}", "={1,2}", 3), _gen("two", "={3}", "={1,2}", 1)] + [
    _impl(3, 1, 2, 2000), _impl(3, 2, 2, 2000), _impl(3, 1, 3, 1000), _impl(4, 2, 2, 1000)]
pool("pool-plain", [_gen("plain", "={2}", "={1,2}", 3), _gen("plain", "={3}", "={1}", 1), _gen("plain", "={3}", "={2}", 1), _gen("fail", "={3}", "={1}", 1), _gen("two", "={2}", "={1,2}", 2), _impl(3, 1, 2, 700), _impl(3, 2, 2, 700)],
     _SAFE, thorough=[_gen("plain", "={2}", "={1,2}", 5), _gen("plain", "={3}", "={1,2}", 2), _gen("plain", "={3}", "={1}", 3)] + _T("fail"))
pool("pool-wait", [_gen("wait", "={2}", "={1}", 3), _gen("wait", "={3}", "={1}", 1), _gen("plain", "={3}", "={2}", 1), _gen("two", "={2}", "={1}", 2), _impl(3, 1, 2, 700)],
     ["wake", "slot", "hang"], thorough=[_gen("wait", "={2}", "={1}", 5), _gen("wait", "={3}", "={1}", 2), _gen("plain", "={3}", "={1}", 3)] + _T("plain"))
pool("pool-fail", [_gen("fail", "={2}", "={1,2}", 3), _gen("panic", "={2}", "={1,2}", 2), _gen("fail", "={3}", "={1}", 1), _gen("two", "={2}", "={1}", 2), _impl(3, 1, 2, 700), _impl(3, 2, 2, 700)],
     ["slot", "report"], thorough=[_gen("fail", "={2}", "={1,2}", 4), _gen("panic", "={2}", "={1,2}", 4), _gen("panic", "={3}", "={1,2}", 1)] + _T("fail"))

# the whole capacity at once
for _n, _k in (("all", _SAFE), ("wake", ["wake", "slot", "hang"]), ("fail", ["slot", "report"])):
    pool("pool-many-" + _n, [_gen("many", "={1}", "={2,3,4,5,8}", 1), _gen("many", "={2}", "={3}", 0), _gen("often", "={1}", "={1,2}", 0), _gen("crowd", "={1,2}", "={1}", 0)], _k, thorough=[_gen("crowd", "={1,2,3}", "={1}", 0), _gen("often", "={1}", "={1,2,3,8}", 0), _gen("many", "={1}", "={2,3,4,5,8}", 2), _gen("many", "={2}", "={3,4}", 1)])

_BK = ["dirty", "big", "share", "over", "use", "hang", "waste"]


def _buf(tasks, limits, caps, inits, pre):
    return ("buf", {"NTasks": tasks, "Limits": limits, "Caps": caps, "Inits": inits, "Pre": pre})


pool("buf-pool", [_buf("={1}", "={1,2,3}", "={0,1,16,17,64}", "={0,8,16,32}", 0), _buf("={2}", "={1,2}", "={16}", "={8}", 2), _buf("={3}", "={1,2}", "={16}", "={8}", 1)], _BK,
     thorough=[_buf("={1}", "={1,2,3}", "={0,1,8,15,16,17,64,600}", "={0,1,8,16,32,100}", 0), _buf("={2}", "={1,2,3}", "={16,0}", "={8}", 4), _buf("={3}", "={1,2}", "={16}", "={8}", 2)])

# ------------------------------------------------------------------------------------------- Migrator
MIG_INV = ["TypeOK", "Knows", "Reached", "NotAgain", "Ordered", "InFlight", "AsDone"]
_RF = ["err", "lostb", "losta", "tmob", "tmoa", "canb", "cana", "noget"]
_SF = ["err", "lostb", "losta", "tmob", "can", "noget", "fail", "late"]
_NF = ["noget", "lookerr", "looklost", "createerr", "createlosta", "readerr", "readlost", "readcan"]


def mig(name, **kw):
    c = dict(Lists=["main"], MaxCalls=2, MaxFaults=0, RecFaults=[], StepFaults=[], NewFaults=[], Starts="all", Pools="={1,2}", Later=0)
    inv = kw.pop("invariants", MIG_INV)
    extra = {k: kw.pop(k) for k in ("quick", "thorough", "simulate") if k in kw}
    c.update(kw)
    gen(name, "Migrator", c, mode="mig", crate="dbh/mig", invariants=inv, **extra)


mig("mig-plain", Lists=["main", "macro", "names", "far", "one", "empty", "none"], MaxCalls=2)
mig("mig-two", Lists=["main", "macro"], MaxCalls=3, Starts="some", Pools="={1}", thorough=dict(Lists=["main", "macro", "names", "far", "one", "none"], Starts="all"))
mig("mig-long", Lists=["long"], MaxCalls=2, Starts="some", thorough=dict(Starts="all", Pools="={1}"))
mig("mig-wide", Lists=["wide"], MaxCalls=2, Starts="wide", Pools="={1}", invariants=["Knows", "Reached", "NotAgain", "AsDone"], thorough=dict(Pools="={1,2}"))
mig("mig-faults", Lists=["main"], MaxCalls=4, MaxFaults=1, Starts="some", RecFaults=_RF, StepFaults=_SF, NewFaults=_NF, Pools="={1}", Later=2, thorough=dict(Starts="all", Pools="={1,2}", Later=3))
mig("mig-faults-macro", Lists=["macro"], MaxCalls=4, MaxFaults=1, Starts="some", RecFaults=_RF, StepFaults=["err", "lostb", "losta", "tmob", "can", "noget"], NewFaults=_NF, Pools="={2}", Later=2, thorough=dict(Later=3, Starts="all"))
mig("mig-faults-2", Lists=["macro"], MaxCalls=4, MaxFaults=2, Starts="none", RecFaults=["err", "losta", "cana", "noget"], StepFaults=["err", "can"], NewFaults=["readerr"], Pools="={1}", Later=3, thorough=dict(Starts="some"))

HOOKS = {"guard": "vp_hooks", "enable": "RUSTFLAGS='--cfg vp_hooks' cargo build (crate /verif/poolh, with /repo as a path dependency)", "source_commits": ["d6307fb"]}

# ------------------------------------------------------------------------------------------- properties
_N = "Every behaviour of the TLA+ specification within the stated bounds (plus random longer ones where listed) is checked by TLC for the invariants and replayed on the real client over a scripted transport; "
PROPS, NOTE, TECHNIQUE = {}, {}, {}


def prop(p, note, quick, thorough=None, technique=None, assume=None):
    PROPS[p] = {"quick": quick, "thorough": thorough or quick}
    NOTE[p] = note
    if technique:
        TECHNIQUE[p] = technique
    if assume:
        ASSUMPTIONS[p] = assume


prop("C01", _N + "the cutting and joining itself is checked by TLC for frame limits 1, 2, 3, 5 against a transport that tampers; behaviours use the real limit of 16,777,215 with packets up to 2 frames and a byte (thorough: 4 frames), six ways the transport fragments.",
     ["framing-model-1", "framing-model-2", "framing-model-3", "framing-model-5", "framing-small", "framing-big", "framing-long"])
prop("C02", _N + "every wrong number at three positions and 15 at five others, wrap-around with up to 600 frames, wrong numbers inside packets of several frames.",
     ["framing-model-1", "framing-model-3", "framing-seq", "framing-wrap", "framing-mseq", "framing-small", "framing-big", "framing-long", "faults-text"])
prop("C03", _N + "histories up to 4 calls exhaustively (thorough: 5), 14 calls randomly; rows ended by either convention.",
     ["session-text", "session-long", "stmt", "session-random", "session-legacy", "session-random-legacy", "framing-many"])
prop("C04", _N + "one fault per history, at every packet and every cut considered (2, 4, 5 bytes read; 0, 3, 6 written); every such history also with the connection given back to a pool of one and taken again, where it must be another one exactly if its exchange was cut short.",
     ["faults-text", "faults-stmt", "faults-legacy", "faults-pool"])
prop("C05", _N + "histories up to 4 calls over 24 shapes of answers, modern and legacy end-of-rows; every field of an OK packet, an end of rows, an error and a column definition at the borders of its form (Answers.tla).",
     ["session-text", "session-text-legacy", "session-long", "stmt-legacy", "answers-ok", "answers-end", "answers-err", "answers-cols", "framing-many"])
prop("C06", _N + "a catalogue of stored values per column type with the bytes of both protocols derived by TLA+ operators; TLC checks that these denote the value; every width and NULL pattern of the listed numbers of columns (up to the largest, 4096).",
     ["values-text", "values-bin", "values-when", "values-wide"])
prop("C07", _N + "every parameter list of the catalogue (kinds, signedness, NULL patterns around byte borders of the bitmap, sizes around the switch to long data, up to the largest number of parameters, 65535).",
     ["values-param", "framing-long", "framing-many", "stmt", "values-wide", "values-widest"])
prop("C24", _N + "histories up to 4 calls.",
     ["stmt-close", "stmt", "faults-stmt", "faults-pool", "framing-many"])
prop("C08", _N + "every combination of capability bits, fragments of salt, plugins, databases, transport security and options listed in Auth.tla.",
     ["handshake", "handshake-few", "auth-long"])
prop("C09", _N + "the server is free at every turn of the dialogue (switch, more data, key, OK, error, rubbish, silence); keys and proofs are symbolic terms in the specification, and the harness computes their bytes with an independent implementation.",
     ["auth-dialogue", "auth-few", "auth-long", "auth-tcp", "handshake"])
prop("C10", _N + "the server of the specification is hostile: TLC checks on every reachable state that the password leaves only as allowed, and the real client must send exactly the terms the specification allows, over the TCP stream it brings along as well.",
     ["auth-dialogue", "auth-few", "auth-long", "auth-tcp"])
prop("C12", _N + "virtual time (tokio's paused clock): every transfer is delayed, once by just under the timeout and once for ever, and the time the call took is compared.",
     ["time-read", "time-write", "time-within", "time-late", "time-stall", "time-legacy", "auth-slow", "auth-late", "framing-slow", "time-own", "auth-own", "time-odd", "time-short", "time-long", "time-longest", "auth-odd-wait", "auth-long-wait"])
prop("C11", "The server of the specification damages well-formed dialogues: every packet cut at every byte, every byte replaced by every value of a set of telling ones, lengths that reach beyond the packet, packets of another kind, missing and repeated packets, frame headers that lie, keys with impossible DER; a reference decoder in TLA+ says which packets end before what they declare. Replayed under a counting allocator (bound: 40 MB and 64 times what was sent; one frame may announce 16 MB), every delivered value is converted to every Rust type.",
     ["malformed", "malformed-cells", "malformed-random"])
_P = "The traces of the real pool (public boundary: polls, creations, returns, wake-ups) under every schedule with a bounded number of preemptions at the pool's atomic operations, and under schedules taken from behaviours of PoolImpl.tla, are validated event by event against Pool.tla by TLC; PoolImpl.tla (the algorithm at the level of its atomic operations) is model checked against Pool.tla; "
_PT = "TLA+ specifications checked with TLC; traces recorded from the real pool under controlled schedules validated against the specification"
prop("C13", _P + "limits 1 and 2 (and 3, 4, 5, 8 with one user that takes and returns everything), two or three users and one that takes the whole capacity in the end; sequentially consistent memory.",
     ["pool-model", "pool-plain", "pool-many-all"], ["pool-model", "pool-model-2", "pool-plain", "pool-many-all"], technique=_PT)
prop("C14", _P + "whenever nobody can go on, no getter may sleep while there is an item or a slot; liveness of the algorithm under fairness with TLC.",
     ["pool-model", "pool-live", "pool-wait", "pool-many-wake"], ["pool-model-2", "pool-live", "pool-wait", "pool-many-wake"], technique=_PT)
prop("C15", _P + "creations that fail, at once or later, and getters abandoned at their first or second wait.",
     ["pool-model", "pool-fail", "pool-many-fail"], ["pool-model-2", "pool-fail", "pool-many-fail"], technique=_PT)
prop("C16", "As for the connection pool, with BufPool.tla: programs of one to three users with buffers of many sizes, limits 1 to 3, all schedules with up to 2 preemptions (three users: 1).",
     ["buf-pool", "framing-big"], technique=_PT)
# ------------------------------------------------------------------------------------------------ Sql
def lex_check(sh, work):
    """The real code writes the texts and values; TLC reads them as the server does. Returns (violations, total, states)."""
    fails, total, _, _ = run_shards(build("harness"), "lex", sh)
    vs = [{"mode": "lex", "errors": e, "scenario": json.loads(sc)} for sc, e in fails]

    def part(path):
        rec = path + ".rec"
        if not os.path.exists(rec) or os.path.getsize(rec) < 5:
            return [], 0
        bad = []
        r = tlc("SqlCheck", cfg_text({}, constraint="Emit"), work, workers=1, mem="3g", env={"TRACES": rec}, on_line=lambda l: bad.append(json.loads(l)))
        if r["error"]:
            raise Broken("SqlCheck: " + r["error"])
        with open(rec) as f:
            rs = json.load(f)
        if r["distinct"] != len(rs) + 1:
            raise Broken("SqlCheck: %d of %d records" % (r["distinct"] - 1, len(rs)))
        out = []
        for b in bad:
            x = rs[b["i"] - 1]
            sc = {"fam": "text", "s": x["s"]} if x["k"] == "text" else {"fam": "value", "v": x["v"]}
            text = lambda k: "".join(map(chr, x[k]))
            for w in b["wrong"]:
                v = {"mode": "lex", "scenario": sc}
                if w == "z":
                    v["known"] = "sub-as-z"
                    w = "SUB is written as \\z"
                v["errors"] = [w + ": " + (repr(text("o")) if x["k"] == "value" else " ".join(repr(text(k)) for k in ("s", "str", "id", "un")))]
                out.append(v)
        return out, len(rs)
    with ThreadPoolExecutor(CPUS) as ex:
        n = 0
        for out, k in ex.map(part, sh.paths):
            vs += out
            n += k
    return vs, total, n


def sql(name, fam, maxlen=3, count=200, thorough=None):
    def f(work, tier):
        c = {"Fam": fam, "MaxLen": maxlen, "Count": count}
        if tier == "thorough":
            c.update(thorough or {})
        sh = Shards(work, name, CPUS)
        t = time.time()
        try:
            r = tlc("SqlGen", cfg_text(c, invariants=["QuotedRead", "Needed", "Names", "IntsRead", "FloatsDiffer"], constraint="Emit"), work, workers=1, mem="6g", on_line=sh.add)
            sh.close()
            if r["error"]:
                return {"error": r["error"], "violations": []}
            if sh.n == 0:
                return {"error": "nothing was generated", "violations": []}
            t1 = time.time()
            vs, total, n = lex_check(sh, work)
            return {"states": r["states"] + n, "distinct": r["distinct"] + n, "traces": total, "calls": total * (3 if fam in ("texts", "chars", "random", "long") else 1), "samples": sh.samples, "violations": vs,
                    "exhaustive": fam in ("texts", "chars", "long"), "bounds": c, "seconds": [round(t1 - t, 1), round(time.time() - t1, 1)]}
        finally:
            sh.remove()
    SUITES[name] = f
    CRATE[name] = "harness"


sql("sql-texts", "texts", maxlen=3, thorough=dict(MaxLen=4))
sql("sql-chars", "chars", thorough=dict(MaxLen=4))
sql("sql-long", "long", thorough=dict(MaxLen=4))
sql("sql-random", "random", count=3000, thorough=dict(Count=60000))
sql("sql-values", "values", count=100, thorough=dict(Count=2000))
sql("sql-floats", "floats", count=100, thorough=dict(Count=1500))

for _f in ("there", "back", "hex"):
    gen("conv-" + _f, "Convert", dict(Fam=_f, Count=100), mode="conv", thorough=dict(Count=2000), invariants=["RoundTrip", "NullOnly", "OneKind", "HexRoundTrip"], workers=1)

MODELS = ["Tag", "Zone", "Map", "Entity", "Own", "Owner", "Prefix", "Node1", "Node2", "Node3", "Node4", "Bare", "Key", "Link", "Plain", "Odd", "Odder", "Paths", "Far", "Far2", "Wide"]



def models(name, fam, ms, full=(), faults=0, **kw):
    gen(name, "Models", dict(Fam=fam, Models=ms, Full=list(full), MaxFault=faults, MaxPerm=5, MaxSwap=20), mode="model", crate="dbh/models", workers=1, invariants=["Once", "Joined", "Aliases", "Expected", "SavesWell"], **kw)


models("models-query", "query", MODELS, thorough=dict(MaxPerm=7, MaxSwap=60))
models("models-save", "save", MODELS, full=["Tag", "Zone", "Own", "Key", "Bare", "Link", "Node4", "Node3"], faults=5, thorough=dict(Full=["Tag", "Zone", "Own", "Key", "Bare", "Link", "Node4", "Node3", "Node2", "Map"], MaxFault=20))
_M = "Every behaviour of Migrator.tla within the bounds (lists of versions and migrations, all or characteristic sets of recorded migrations, sequences of calls, failures at every point) is checked by TLC and replayed on the real migrator, over the real pool and client, against a server in memory that parses the statements it gets and keeps the records; "
prop("C17", _M + "7 lists with up to 10 migrations, every operation with every target at, between and beyond the versions, 2 or 3 calls.",
     ["mig-plain", "mig-two", "mig-long", "mig-wide", "mig-faults-macro"])
prop("C18", _M + "one failure (an error, a broken connection, a timeout or the end of the process, before and after the server did what was asked) at every step, followed by further calls with the same or a new migrator; two failures with fewer kinds.",
     ["mig-faults", "mig-faults-macro", "mig-faults-2"])
_D = "18 derived models (every type of field, embedded structures, references nested up to four deep, named like tables and like each other, a table several times, names that are keywords, have capitals, or letters beyond ASCII) "
prop("C19", _D + "and all or characteristic choices of what is set, NULL, unset, inserted or referenced at every level; the statements that follow come from Models.tla and are compared with those the server in memory parses, together with their parameters; any of the first statements may fail; the ids the server generates are arbitrary.",
     ["models-save"])
prop("C20", _D + "and for each the columns and joins its query must have, and results with the columns in many orders (all of them for the small models), with each column missing, twice, or elsewhere, and with additional columns of every record and of strange tables; three rows each are read with the real client and compared field by field.",
     ["models-query"])
_V = "the catalogue of Samples.tla: all 8-bit and all remarkable wider integers, floats of every class of exponent and mantissa and around the powers of ten, byte strings with every byte, dates, times and datetimes at every border, and random ones of each kind; "
prop("C21", "SqlLex.tla is the server's lexer (string literals with escapes, quoted and unquoted identifiers, numbers); TLC reads with it what the real client wrote (recorded by the harness) and compares the value with the original text: every text of up to 3 (thorough: 4) of the telling characters, every character alone, in front of and after telling ones, and random texts.",
     ["sql-texts", "sql-chars", "sql-long", "sql-random"], technique="TLA+ specification of the server's lexer checked with TLC; recorded outputs of the real code validated against it")
prop("C22", "SqlLex.tla is the server's lexer and its meaning of literals (with exact arithmetic on decimal digits and binary fractions for floats); TLC reads with it what the real client wrote and compares; " + _V + "the texts a server prints for dates and times are read by the real client (all days of several years, all hours, minutes and seconds).",
     ["sql-values", "sql-floats", "values-when"], technique="TLA+ specification of the server's lexer checked with TLC; recorded outputs of the real code validated against it")
prop("C23", "Convert.tla says for every Rust value its database value and for every database value what it is as each of the 16 types; TLC checks the round trip on the specification; " + _V + "UTF-8 well-formedness and the calendar are specified in TLA+; hexadecimal texts of up to 4 telling characters and all those of the byte strings.",
     ["conv-there", "conv-back", "conv-hex"])
