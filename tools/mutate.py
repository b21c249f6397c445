"""Small random changes to the programs, to see which of them no check
notices: tools/mutate.py PROGRAM N WORKERS [FILE-REGEX]. Each worker has its own
copy of both trees under /tmp/mut, removed at the end; results are appended to
work/mutants.PROGRAM.jsonl. A mutant which survives either keeps the behaviour
(or changes what no property is about), or shows what is missing."""
import json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOP = "/tmp/mut"

SWAPS = [  # (pattern, replacements)
    (r" < ", [" <= ", " > "]), (r" <= ", [" < ", " >= "]),
    (r" > ", [" >= ", " < "]), (r" >= ", [" > ", " <= "]),
    (r" == ", [" != "]), (r" != ", [" == "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]),
    (r" \+= ", [" -= "]), (r" -= ", [" += "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"\.try_sub\(", [".try_add("]), (r"\.try_add\(", [".try_sub("]),
    (r"\.try_mul\(", [".try_div("]), (r"\.try_div\(", [".try_mul("]),
    (r"\.try_floor\(", [".try_ceil("]), (r"\.try_ceil\(", [".try_floor("]),
    (r"\.try_floor_u64\(", [".try_ceil_u64("]),
    (r"\.try_ceil_u64\(", [".try_floor_u64("]),
    (r"\.try_round_u64\(", [".try_ceil_u64(", ".try_floor_u64("]),
    (r"\.checked_sub\(", [".checked_add("]),
    (r"\.checked_add\(", [".checked_sub("]),
    (r"checked_div\(", ["checked_mul("]),
    (r"\bstaked\b", ["vested"]), (r"\bvested\b", ["staked"]),
    (r"\bstarts_at\b", ["ends_at"]), (r"\bends_at\b", ["starts_at"]),
    (r"\.rev\(\)", [""]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
    (r"\bskip_while\(", ["take_while("]), (r"\btake_while\(", ["skip_while("]),
    (r"\bsource_", ["target_"]), (r"\btarget_", ["source_"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.\"])(\d+)(?![\w.\"])", ["+1", "-1"]),
    (r"Signer<'info>", ["AccountInfo<'info>"]),
    (r"\bis_some\(", ["is_none("]), (r"\bis_none\(", ["is_some("]),
    (r"\bfirst\(", ["last("]), (r"\blast\(", ["first("]),
    (r"!(?=[a-z(])", [""]),
    (r"\.\.=", [".."]), (r"\bSome\((?=\w+\))", ["None.or("]),
    (r"max_value\(\)", ["min_value()"]), (r"::MAX\b", ["::MIN"]),
]


def mutants(text):
    """(line, what, new text)"""
    end = text.find("#[cfg(test)]")
    body = text if end < 0 else text[:end]
    out = []

    def add(a, b, new, what):
        out.append((text.count("\n", 0, a) + 1, what,
                    text[:a] + new + text[b:]))

    skip = []
    for m in re.finditer(r"(?m)^\s*(//.*|use .*?;|pub use .*?;|"
                         r"#\[(?!account).*)$|//.*$", body, re.M):
        skip.append(m.span())

    def skipped(a):
        return any(x <= a < y for x, y in skip)

    for pat, news in SWAPS:
        for m in re.finditer(pat, body):
            if skipped(m.start()):
                continue
            for new in news:
                if new in ("+1", "-1"):
                    n = int(m[0]) + int(new)
                    if n < 0:
                        continue
                    new = str(n)
                add(m.start(), m.end(), new, f"{m[0]!r} -> {new!r}")
    for m in re.finditer(r"\bif (?!let\b)([^{}]*?) \{", body):
        if not skipped(m.start()):
            add(m.start(), m.end(), "if false && (%s) {" % m[1], "if false")
            add(m.start(), m.end(), "if true || (%s) {" % m[1], "if true")
    for m in re.finditer(r"(?m)^( {4,})(?!let |use |pub |const |return )"
                         r"[a-z*#][^;{}]*?;\n", body):
        if not skipped(m.start(0) + len(m[1])):
            add(m.start(), m.end(), "\n", "delete " + m[0].strip()[:60])
    for m in re.finditer(r"(?m)^( {4,})(?!let |use |pub |const |return )"
                         r"[a-z*(][^;]*?\n\1\S*\)?\??;\n", body):
        if "{" in m[0] and not skipped(m.start(0) + len(m[1])):
            add(m.start(), m.end(), "\n", "delete " + m[0].strip()[:60])
    # constraints of accounts, one per line
    for m in re.finditer(r"#\[account\(\n((?: {8}.*\n)+?) {4}\)\]", body):
        for c in re.finditer(r"(?m)^ {8}\S(?:.*\n)(?: {12}.*\n)*(?: {8}[\])}].*\n)?",
                             m[1]):
            a = m.start(1) + c.start()
            add(a, a + len(c[0]), "\n", "no " + c[0].strip()[:80])
    for m in re.finditer(r"#\[account\(([^()\n]+)\)\]", body):
        add(m.start(), m.end(), "", "no " + m[1])
    return out


def sh(cmd, timeout, **k):
    try:
        r = subprocess.run(["bash", "-c", cmd], capture_output=True, text=True,
                           timeout=timeout, **k)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", ""


ONE = """
import sys, re, collections
sys.path.insert(0, sys.argv[1] + "/verif/lib")
prog, first = sys.argv[2], sys.argv[3]
import check, machinery as mc
mc.REPO = sys.argv[1] + "/repo"
mc.build(prog)
print("BUILT", flush=True)
mc.build_java()
c = check.Check("C01" if prog == "farming" else "C25", "quick", int(first))
c.profiles = sorted({p for q, (s, ps) in check.FOCUS.items()
                     if check.program(q) == prog for p in ps.split()})
tr = mc.Traces(c.file("t"))
c.drive(tr, 10000, 0, long=prog == "farming", first=True)
tr.close()
bad, r = mc.validate(prog, tr.path, tr.n, "ALL", workers=2, heap="3g",
                     timeout=400)
bad = [b for b in bad if b[2] != "known:same-slot-snapshot"]
n = collections.Counter(b[3] for b in bad)
print("RESULT", " ".join(f"{k}:{v}" for k, v in sorted(n.items())))
for b in bad[:1]:
    print("FIRST", b)
"""


def worker(w, program, queue, lock, log):
    d = f"{TOP}/{program}{w}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f"mkdir {d}/repo {d}/verif; cp -r /repo/programs {d}/repo/; cd {VERIF};"
       f"cp -r bin lib spec decimal harness known-findings.json {d}/verif/;"
       f"mkdir {d}/verif/build; cp -r build/java {d}/verif/build/;"
       f"sed -i 's|\"/repo/|\"{d}/repo/|' {d}/verif/harness/Cargo.toml;"
       f"mkdir -p {d}/verif/target; cp -r target/{program} {d}/verif/target/;"
       f"rm -rf {d}/verif/target/{program}/stamp", 300)
    open(d + "/one.py", "w").write(ONE)
    while True:
        with lock:
            if not queue:
                break
            f, line, what, new = queue.pop()
        p = f"{d}/repo/programs/{program}/src/{f}"
        old = open(p).read()
        t0 = time.time()
        open(p, "w").write(new)
        rc, out = sh(f"cd {d}; timeout -k 5 600 python3 one.py {d} {program} 1",
                     700)
        open(p, "w").write(old)
        sh(f"rm -rf {d}/verif/work", 60)
        m = re.search(r"RESULT ?(.*)", out)
        if m and m[1]:
            res = "killed"
        elif m:
            res = "survived"
        elif "BUILT" not in out:
            res = "stillborn"
        else:
            res = "broken"
        rec = dict(file=f, line=line, what=what, res=res,
                   by=m[1] if m else out[-600:] if res == "broken" else "",
                   code=old.split("\n")[line - 1].strip(),
                   s=round(time.time() - t0))
        with lock:
            log.write(json.dumps(rec) + "\n")
            log.flush()
    shutil.rmtree(d, ignore_errors=True)


def main():
    program, n, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    only = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
    os.makedirs(VERIF + "/work", exist_ok=True)
    path = f"{VERIF}/work/mutants.{program}.jsonl"
    done = set()
    if os.path.exists(path):
        for line in open(path):
            r = json.loads(line)
            done.add((r["file"], r["line"], r["what"]))
    queue = []
    src = f"/repo/programs/{program}/src"
    for top, _, files in os.walk(src):
        for f in files:
            f = os.path.relpath(os.path.join(top, f), src)
            if f.endswith(".rs") and "test" not in f and only.search(f) \
                    and f not in ("err.rs",):
                for line, what, new in mutants(open(f"{src}/{f}").read()):
                    if (f, line, what) not in done:
                        queue.append((f, line, what, new))
    random.Random(7).shuffle(queue)
    print(len(queue), "mutants", flush=True)
    queue = queue[:n]
    lock = threading.Lock()
    with open(path, "a") as log:
        ts = [threading.Thread(target=worker, args=(i, program, queue, lock,
                                                    log))
              for i in range(workers)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


if __name__ == "__main__":
    main()
