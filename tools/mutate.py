#!/usr/bin/env python3
"""mutate.py <worker> <workers> <out> <file>..: changes the code in many small ways (one at a time) and looks which ones the
checks do not notice.  Development only; runs in a private mount namespace (tools/mutate.sh), where /repo and /verif are copies."""
import json, os, re, subprocess, sys, time

W, N, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
FILES = sys.argv[4:]
WIRE1 = "values-text,values-bin,values-param,session-text,handshake,answers-cols,answers-ok,stmt"
WIRE2 = "framing-small,framing-long,framing-seq,framing-wrap,framing-mseq,framing-big,faults-text,session-long,session-random,faults-stmt,faults-legacy,faults-pool,session-text-legacy,stmt-legacy,answers-end,answers-err,values-when,stmt-close,auth-long,auth-dialogue,time-read,time-write,time-stall,time-legacy,auth-slow"
MAL = "malformed,malformed-cells,malformed-random"
CONV = "conv-there,conv-back,conv-hex"
SQL = "sql-texts,sql-chars,sql-values,sql-floats"
POOL = "pool-many-all,pool-many-wake,pool-many-fail,pool-plain,pool-wait,pool-fail"
DB = "mig-plain,mig-two,mig-faults-macro,models-save,models-query"
DB2 = "mig-long,mig-faults,mig-faults-2"


def groups(f):
    if "/pool/sync" in f or f.endswith("pool/pool_item.rs"):
        return [WIRE1, "buf-pool", POOL]
    if "/pool/" in f:
        return [POOL]
    if "types/hex" in f or "conversion" in f:
        return [CONV, WIRE1]
    if "types/value/text" in f:
        return [WIRE1, CONV, SQL, MAL, "values-when"]
    if "types/value" in f:
        return [WIRE1, CONV, MAL, "values-when", SQL]
    if "/model" in f or "/migrator" in f or "macros" in f:
        return [DB, DB2, SQL]
    return [WIRE1, WIRE2, MAL]


SWAPS = [(r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<![<\-=])<(?![<=A-Za-z_'&])", "<="), (r"(?<![->=])>(?![>=])(?= )", ">="),
         (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="), (r"-=", "+="), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r" << ", " >> "), (r" >> ", " << "), (r" \| ", " & "), (r" & ", " | "), (r" \^ ", " | "),
         (r"\|=", "&="), (r"\^=", "|="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"),
         (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"(?<=\()!(?=\w)|(?<= )!(?=\w)", ""), (r"::min\(", "::max("), (r"::max\(", "::min("), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
         (r"\.\.=", ".."), (r"\.\.(?=[\w\]])(?!=)", "..="), (r"\bu16\b", "u8"), (r"\bu32\b", "u16"), (r"\bu64\b", "u32"), (r"\bi64\b", "i32"), (r"\bi32\b", "i16"), (r"\bi16\b", "i8"),
         (r"Ordering::Less", "Ordering::Greater"), (r"\.rev\(\)", ""), (r"\.push_back\(", ".push_front("), (r"\.pop_front\(", ".pop_back("), (r"\bif (?=[^l{][^{]*\{)", "if !"), (r"\?;", ";"), (r"\.wrapping_add\(", ".wrapping_sub("), (r"checked_", "wrapping_"),
         (r"\.skip\(", ".take("), (r"\.take\((?=\d)", ".skip("), (r"\.to_owned\(\)", ".to_lowercase()"), (r"\bbool\b", "bool")]


def mutants(path):
    src = open(path).read()
    end = src.find("#[cfg(test)]")
    lines = (src if end < 0 else src[:end]).split("\n")
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#[", "#!", "use ", "pub use ", "mod ", "pub mod ", "impl", "where", "extern")):
            continue
        code = l.split("//")[0] if '"' not in l else l
        for a, b in SWAPS:
            for m in re.finditer(a, code):
                x = code[:m.start()] + b + code[m.end():]
                if x != code:
                    out.append((i, x))
        for m in re.finditer(r"(?<![\w.#\"])(0x[0-9a-fA-F_]+|\d[\d_]*)(?![\w.]|\.\d)(_?[ui]\d+)?", code):
            t = m.group(1).replace("_", "")
            n = int(t, 0) if t.startswith("0x") else int(t)
            for k in ({n + 1, n - 1} if n > 0 else {1}):
                out.append((i, code[:m.start(1)] + str(k) + code[m.end(1):]))
        # a statement left out
        if s.endswith(";") and not s.startswith(("let ", "const ", "static ", "return", "type ", "}", ")", "pub ", ".")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            out.append((i, l[:len(l) - len(l.lstrip())]))
        # a case left out of a list of patterns
        for m in re.finditer(r"\| [\w:]+(\([^)]*\))?(?= )", code):
            out.append((i, code[:m.start()] + code[m.end():]))
        # an early return
        m = re.match(r"\s*(.*=> )(\w.*),$", code)
    return src, [(i, x, lines[i]) for i, x in out]


def sh(cmd, t, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **kw)
    except subprocess.TimeoutExpired as e:
        class R:
            returncode, stdout = 124, str(e.stdout)[-500:]
        subprocess.run(["pkill", "-9", "-s", "0"], check=False) if False else None
        return R


def one(path, src, i, x):
    lines = src.split("\n")
    lines[i] = x
    open(path, "w").write("\n".join(lines))
    try:
        p = sh(["cargo", "build", "--offline", "-q"], 300, cwd="/repo")
        if p.returncode:
            return "uncompiled", ""
        env = dict(os.environ, VP_TLC_CACHE="/tmp/tlccache2", SHOW="1", WIDTH="300", VP_STUCK="10")
        for g in groups(path):
            p = sh(["python3", "run.py", "--suite", g], 400, cwd="/verif", env=env)
            if p.returncode == 1 and not re.search(r"[1-9]\d* violations", p.stdout.replace("sql-", "")):
                return "strange", p.stdout[-600:]
            if p.returncode == 1 and g in (SQL,):
                # the known finding
                vs = dict(re.findall(r"^(sql-\w+) (\d+) violations", p.stdout, re.M))
                if vs == {"sql-texts": "1565", "sql-chars": "2", "sql-values": "0", "sql-floats": "0"}:
                    continue
                return "caught", g + " " + str(vs)
            if p.returncode == 1:
                return "caught", " ".join(re.findall(r"^(\S+) [1-9]\d* violations", p.stdout, re.M))
            if p.returncode == 124:
                return "caught", "timeout " + g
            if p.returncode:
                return "broken%d" % p.returncode, p.stdout[-600:]
        p = sh(["bash", "/opt/vp/test.sh", "/tmp/mw/%d/t.json" % W], 300)
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        try:
            t = json.load(open("/tmp/mw/%d/t.json" % W))
            if not all(s in str(t.get("passed", t)) for s in stable):
                return "tests", ""
        except Exception as e:
            return "tests?", str(e)
        return "SURVIVED", ""
    finally:
        open(path, "w").write(src)


k = 0
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        r = json.loads(l)
        done.add((r["f"], r["l"], r["new"]))
for f in FILES:
    path = os.path.join("/repo", f)
    src, ms = mutants(path)
    for i, x, old in ms:
        k += 1
        if k % N != W or (f, i + 1, x.strip()) in done:
            continue
        t = time.time()
        r, why = one(path, src, i, x)
        with open(OUT, "a") as o:
            o.write(json.dumps({"f": f, "l": i + 1, "old": old.strip(), "new": x.strip(), "r": r, "why": why, "s": round(time.time() - t, 1)}) + "\n")
