"""Builds the harness, runs TLC, turns behaviours of the specification into
behaviours of the real programs."""
import hashlib, json, os, random, re, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
WORK = os.path.join(VERIF, "work")
JARS = ":".join("/opt/veriftools/tla/" + j for j in
                ("tla2tools.jar", "CommunityModules-deps.jar"))


class NoAnswer(Exception):
    """the check could not be carried out"""


def module(program):
    return {"farming": "Farming", "amm": "Amm"}[program]


# -- building --

def digest(*dirs):
    h = hashlib.sha256()
    for top in dirs:
        names = []
        for d, sub, files in os.walk(top):
            sub[:] = [s for s in sub if s not in ("target", ".git")]
            names += [os.path.join(d, f) for f in files]
        for n in sorted(names):
            h.update(n.encode() + b"\0")
            with open(n, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def target(program):
    return os.path.join(VERIF, "target", program)


def build(program):
    """the harness with the program as it is in the repository now"""
    tgt = target(program)
    stamp = os.path.join(tgt, "stamp")
    now = digest(f"{REPO}/programs/{program}", f"{VERIF}/harness/src",
                 f"{VERIF}/decimal")
    if os.path.exists(stamp) and open(stamp).read() == now \
            and os.path.exists(f"{tgt}/debug/harness"):
        return
    os.makedirs(tgt, exist_ok=True)
    # modification times are not to be relied upon
    cmd = f""". /opt/vp/env.sh; cd {VERIF}/harness
    unset CARGO_BUILD_TARGET RUSTFLAGS
    export CARGO_TARGET_DIR={tgt} CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=1
    if [ -f {stamp} ]; then
      rm -f {stamp}
      cargo clean --offline -p {program} 2>/dev/null
      touch src/main.rs
    fi
    cargo build --offline --features with-{program} 2>&1"""
    r = subprocess.run(["bash", "-c", cmd], capture_output=True, text=True)
    if r.returncode:
        raise NoAnswer("the harness does not build:\n" + r.stdout[-3000:])
    with open(stamp, "w") as f:
        f.write(now)


def build_java():
    out = os.path.join(BUILD, "java")
    src = os.path.join(SPEC, "java", "NumOverrides.java")
    stamp = os.path.join(out, "stamp")
    now = digest(os.path.dirname(src))
    if os.path.exists(stamp) and open(stamp).read() == now:
        return
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["javac", "-d", out, "-cp", JARS, src],
                       capture_output=True, text=True)
    if r.returncode:
        raise NoAnswer(r.stderr)
    with open(stamp, "w") as f:
        f.write(now)


# -- TLC --

class Tlc:
    """A run of TLC, in the background."""

    def __init__(self, name, env, workers=8, heap="6g", timeout=600):
        self.dir = tempfile.mkdtemp(prefix="tlc.", dir=work())
        self.timeout = timeout
        self.out = os.path.join(self.dir, "out")
        args = ["java", "-Djava.io.tmpdir=" + self.dir,
                "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap,
                "-Dtlc2.overrides.TLCOverrides="
                "tlc2.overrides.TLCOverrides:NumOverrides",
                # states which hold what was read from a file survive no disk
                "-Dtlc2.tool.queue.DiskStateQueue.BufSize=1048576",
                "-cp", BUILD + "/java:" + JARS, "tlc2.TLC", "-workers",
                str(workers), "-metadir", self.dir, "-nowarning", "-config",
                name + ".cfg", name + ".tla"]
        self.f = open(self.out, "w")
        self.p = subprocess.Popen(
            args, cwd=SPEC, stdout=self.f, stderr=subprocess.STDOUT,
            env={**os.environ, **env})

    def result(self):
        try:
            self.p.wait(self.timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise NoAnswer("TLC took too long")
        finally:
            self.f.close()
        with open(self.out) as f:
            self.text = f.read()
        shutil.rmtree(self.dir, ignore_errors=True)
        m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct",
                       self.text, re.M)
        self.generated, self.distinct = \
            [int(x.replace(",", "")) for x in m[-1]] if m else (0, 0)
        self.finished = "Model checking completed. No error" in self.text
        return self


def work():
    os.makedirs(WORK, exist_ok=True)
    return WORK


# -- behaviours of the specification --

def explore(program, scenario, slots, depth, prop, workers=3, timeout=300,
            emit=True):
    return Tlc(module(program) + "MC", dict(
        SCENARIO=scenario, SLOTS=str(slots), DEPTH=str(depth), PROP=prop,
        EMIT="1" if emit else "0"), workers=workers, timeout=timeout)


def explored(run):
    """what a run of `explore` printed: the scenario and all steps tried"""
    r = run.result()
    if not r.finished:
        raise NoAnswer("exploration of the specification failed:\n"
                       + r.text[-3000:])
    head, paths = None, []
    for line in r.text.split("\n"):
        if line.startswith("<<"):
            paths.append([int(x) for x in line[2:-2].split(",") if x.strip()])
        elif line.startswith('"{'):
            head = json.loads(json.loads(line))
    return head, paths


def tree(head, paths, limit, rng, out):
    """writes a sample of the steps tried as a tree of events"""
    paths = list(paths)
    rng.shuffle(paths)
    first = head["prelude"][-1]["slot"]
    root, n, used = {}, 0, 0
    for p in paths:
        slot, at = first, root
        for c in p:
            if c == 0:
                slot += 1
                continue
            if (slot, c) not in at:
                at[slot, c] = {}
                n += 1
            at = at[slot, c]
        used += 1
        if n >= limit:
            break
    lines = []

    def event(e, slot, d):
        e = dict(e, slot=slot, d=d, t=0, n=d)
        if not e["acc"]:
            e["acc"] = {}
        lines.append(json.dumps(e))

    event(head["first"], head["first"]["slot"], 0)
    for i, e in enumerate(head["prelude"]):
        event(e, e["slot"], i + 1)
    # the alphabet is indexed by how many slots have passed
    alpha = head["alphabet"]
    alpha = {int(k): v for k, v in alpha.items()} if isinstance(alpha, dict) \
        else dict(enumerate(alpha))
    leaves = 0
    stack = [(k, v, len(head["prelude"]) + 1) for k, v in root.items()]
    while stack:
        (slot, c), kids, d = stack.pop()
        event(alpha[slot - first][c - 1], slot, d)
        leaves += not kids
        stack += [(k, v, d + 1) for k, v in kids.items()]
    with open(out, "w") as f:
        f.write("\n".join(lines) + "\n")
    return leaves, used


def run_tree(program, src, dst):
    """tries a tree of events on the real program; an event at which the
    process dies (its stack overflows, say) was refused by the program"""
    skip = []
    for _ in range(4):
        r = subprocess.run(
            [target(program) + "/debug/harness", "tree", src, dst],
            capture_output=True, text=True, env={
                **os.environ, "CRASHING": ",".join(map(str, skip))})
        with open(dst) as f:
            lines = f.read()
        if r.returncode == 0:
            return
        # what was written before is what was observed
        whole = lines[:lines.rfind("\n") + 1]
        if lines != whole:
            with open(dst, "w") as f:
                f.write(whole)
        n = whole.count("\n")
        if "panicked" in r.stderr or n == 0 or n + 1 in skip:
            raise NoAnswer("the harness failed: " + r.stderr[-2000:])
        skip.append(n + 1)


# -- behaviours of the real programs --

class Traces:
    """Observed events of many traces in a single file."""

    def __init__(self, path):
        self.path = path
        self.f = open(path, "w")
        self.n = 0
        self.base = 0

    def write(self, line):
        """a line of a trace, or of a tree added by `add`"""
        self.f.write(line if line.endswith("\n") else line + "\n")
        self.n += 1

    def flush(self):
        self.f.flush()

    def add(self, path):
        base = self.n
        with open(path) as f:
            for line in f:
                if base and '"par":' in line:
                    line = re.sub(r'"par":(\d+)', lambda m: '"par":%d' % (
                        int(m[1]) + base), line, 1)
                self.write(line)

    def close(self):
        self.f.close()


def validate(program, path, lines, prop, strict=False, workers=8, heap="8g",
             timeout=600):
    """the deviations [(line, action, message)], and the run of TLC"""
    r = Tlc(module(program) + "Trace",
            dict(TRACE=path, PROP=prop, STRICT="1" if strict else "0"),
            workers=workers, heap=heap, timeout=timeout).result()
    bad = []
    for line in r.text.split("\n"):
        if line.startswith('"<<\\"@\\"'):
            m = re.match(r'<<"@", "(\w+)", (\d+), "(\w+)", "(.*)">>',
                         json.loads(line))
            bad.append((int(m[2]), m[3], m[4], m[1]))
    if not r.finished and not bad:
        # a property which cannot be evaluated for a step does not hold for it
        k = re.findall(r"^/\\ k = (\d+)", r.text, re.M)
        if k and re.search("Error: (Evaluating|The exception|Attempted|TLC "
                           "encountered|The (first|second) argument|In "
                           "evaluation|The error occurred)", r.text) \
                and "OutOfMemory" not in r.text \
                and "StackOverflow" not in r.text:
            kids = follow(path, int(k[-1]))
            bad.append((kids, "?", "the step makes no sense at all", prop))
            return sorted(bad), r
        raise NoAnswer("TLC failed:\n" + r.text[-3000:])
    if r.finished and r.distinct != lines:
        raise NoAnswer(f"only {r.distinct} of {lines} events were judged")
    return sorted(bad), r


def follow(path, k):
    """a line which follows line k"""
    with open(path) as f:
        for i, line in enumerate(f, 1):
            e = json.loads(line)
            if i > k and e.get("par", i - 1) == k:
                return i
    return k


def behaviour(path, line):
    """the events which lead to a line of a file of traces"""
    with open(path) as f:
        all = f.read().split("\n")
    out = []
    while True:
        e = json.loads(all[line - 1])
        out.append(e)
        if e["a"] == "init":
            return out[::-1]
        line = e.get("par", line - 1)
