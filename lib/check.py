"""Decides one property: explores the specification, tries what was explored
on the real program, drives the real program at random and through directed
behaviours, and has TLC judge every step that was observed."""
import json, os, random, re, sys, time
import amm, directed, farming, machinery as mc, systematic
from systematic import Branches, Hopeless
from world import World

VERIF = mc.VERIF

# scenarios to explore: (name, slots, depth) in the quick and thorough tiers
SCENARIOS = {
    "harvest": ((3, 3), (5, 4)), "funded": ((3, 3), (5, 4)),
    "period": ((4, 3), (5, 4)), "compound": ((2, 3), (3, 4)),
    "admin": ((2, 3), (3, 4)),
    "const": ((1, 3), (2, 4)), "three": ((1, 3), (1, 4)),
    "stable": ((1, 2), (1, 3)), "stable3": ((1, 2), (1, 3)),
    "empty": ((0, 4), (1, 5)), "admin_amm": ((1, 3), (2, 4)),
}

# property: scenarios, profiles of the random driver (twice is more often)
FOCUS = {
    "C01": ("admin harvest", "mixed stake stake"),
    "C02": ("admin harvest", "stake mixed admin"),
    "C03": ("period", "period period mixed"),
    "C04": ("period", "period period mixed"),
    "C05": ("period", "period period dense mixed"),
    "C06": ("admin period", "admin admin mixed"),
    "C07": ("admin compound", "admin admin compound"),
    "C08": ("admin funded", "mixed admin dense"),
    "C09": ("harvest funded", "dense dense stake mixed"),
    "C10": ("funded harvest", "dense dense stake period"),
    "C11": ("funded harvest", "dense dense stake compound"),
    "C12": ("funded harvest", "dense dense stake mixed"),
    "C13": ("funded compound", "dense compound mixed"),
    "C14": ("admin funded", "dense mixed stake admin"),
    "C15": ("compound", "dense compound mixed"),
    "C16": ("admin", "admin mixed"),
    "C17": ("funded harvest", "dense dense mixed period"),
    "C18": ("admin compound", "admin mixed compound"),
    "C19": ("admin compound", "mixed admin compound"),
    "C20": ("admin_amm", "admin admin mixed"),
    "C21": ("const stable", "liquidity liquidity mixed"),
    "C22": ("const three", "liquidity liquidity mixed"),
    "C23": ("const stable", "liquidity liquidity mixed"),
    "C24": ("const empty", "mixed swap liquidity"),
    "C25": ("const stable", "swap mixed"),
    "C26": ("const three", "swap mixed"),
    "C27": ("stable stable3", "swap liquidity mixed"),
    "C28": ("const stable", "swap swap mixed"),
    "C29": ("const admin_amm", "swap admin mixed"),
    "C30": ("const three", "swap swap mixed"),
    "C31": ("const stable", "swap liquidity mixed"),
    "C32": ("admin_amm", "admin mixed"),
    "C33": ("const empty", "mixed liquidity swap admin"),
    "C34": ("admin_amm const", "admin mixed liquidity swap"),
}

# properties which depend on what a farm forgets
LONG = {"C01", "C02", "C03", "C04", "C09", "C10", "C11", "C12", "C17"}


# how many of the systematic requests are tried in the quick tier
SYSTEMATIC = {"farming": None, "amm": None}


def program(prop):
    return "farming" if prop < "C20" else "amm"


def known_findings(prop):
    """the deviations of the property which are known"""
    with open(os.path.join(VERIF, "known-findings.json")) as f:
        return {x["signature"]: x["what"] for x in json.load(f)["open"]
                if x["property"] == prop}


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.program = program(prop)
        self.scenarios, profiles = FOCUS[prop]
        self.profiles = profiles.split()
        self.known = known_findings(prop)
        self.seen = {}
        self.samples = []
        self.cut_short = []
        self.n = dict(states=0, transitions=0, events=0, accepted=0,
                      random_traces=0, directed_traces=0, spec_traces=0,
                      systematic_requests=0,
                      spec_steps_tried=0)
        self.actions = {}
        self.dir = os.path.join(mc.work(), f"{prop}.{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)

    def file(self, name):
        return os.path.join(self.dir, name)

    # -- the specification --

    def start_exploring(self, workers, timeout):
        t = 0 if self.tier == "quick" else 1
        self.runs = []
        for s in self.scenarios.split():
            slots, depth = SCENARIOS[s][t]
            self.runs.append((s, mc.explore(
                self.program, s.split("_")[0], slots, depth, self.prop,
                workers=workers, timeout=timeout)))

    def stop(self):
        for _, r in getattr(self, "runs", ()):
            if r.p.poll() is None:
                r.p.kill()

    def spec_behaviours(self, traces, limit):
        rng = random.Random(f"{self.seed} {self.prop}")
        for name, run in self.runs:
            head, paths = mc.explored(run)
            self.n["states"] += run.distinct
            self.n["transitions"] += len(paths)
            src, dst = self.file(name + ".in"), self.file(name + ".out")
            leaves, used = mc.tree(head, paths, limit // len(self.runs), rng,
                                   src)
            mc.run_tree(self.program, src, dst)
            traces.add(dst)
            self.n["spec_traces"] += leaves
            self.n["spec_steps_tried"] += used
            os.remove(src)
            os.remove(dst)

    # -- the real program --

    def drive(self, traces, events, batch, long=False, first=False):
        """tries behaviours on the real program: directed and systematic ones
        at first, random ones, and what else could happen on their way"""
        b = Branches(limit=100000, seconds=150)
        w = World(b, mc.target(self.program))
        farms = self.program == "farming"
        t0 = time.time()

        def attempt(f, *args, **kw):
            """on programs which are wrong behaviours may take turns nobody
            is prepared for; what happened until then is judged"""
            nonlocal w
            try:
                return f(*args, **kw)
            except Hopeless:
                self.cut_short.append(f"{f.__name__}: no end of it")
                raise
            except Exception as e:
                self.cut_short.append(f"{f.__name__}: {e!r}"[:200])
                if len(self.cut_short) > 60 or time.time() - t0 > 90:
                    raise Hopeless()
                if w.p.poll() is not None:
                    w.close()
                    t = w.trace
                    w = World(b, mc.target(self.program))
                    w.trace = t
                return 0

        try:
            if first:
                for f in directed.FARMING if farms else directed.AMM:
                    attempt(f, w)
                rng = random.Random(f"{self.seed}.{batch}")
                if farms and long:
                    for f in directed.LONG:
                        attempt(f, w)
                    attempt(systematic.ring, w, b, rng)
                    attempt(systematic.second_ring, w, b, rng)
                    attempt(systematic.timelines, w, b, rng,
                            24 if self.tier == "quick" else 108)
                if not farms:
                    attempt(systematic.sizes, w, b, rng,
                            120 if self.tier == "quick" else 324)
                self.n["directed_traces"] += w.trace
                self.n["systematic_requests"] += attempt(
                    getattr(systematic, self.program), w, b, rng,
                    None if self.tier != "quick"
                    else SYSTEMATIC[self.program]) or 0
            before, start = w.trace, len(b.lines)
            i = 0
            if long and farms:
                attempt(farming.ring_trace, w, random.Random(
                    f"{self.seed}.{batch}.r"), b=b)
            while len(b.lines) - start < events:
                rng = random.Random(f"{self.seed}.{batch}.{i}")
                profile = rng.choice(self.profiles)
                if farms:
                    attempt(farming.random_trace, w, rng,
                            rng.choice([60, 120]), b=b, profile=profile)
                else:
                    attempt(amm.random_trace, w, rng, rng.choice([40, 80]),
                            b=b, profile=profile)
                i += 1
            self.n["random_traces"] += w.trace - before
        except Hopeless:
            pass
        finally:
            w.close()
        src, dst = self.file("b.in"), self.file("b.out")
        with open(src, "w") as f:
            f.write("\n".join(b.lines) + "\n")
        mc.run_tree(self.program, src, dst)
        traces.add(dst)
        os.remove(src)
        os.remove(dst)

    def judge(self, traces, workers=8, timeout=600):
        traces.close()
        bad, run = mc.validate(self.program, traces.path, traces.n, self.prop,
                               workers=workers, timeout=timeout)
        self.n["events"] += traces.n
        with open(traces.path) as f:
            for line in f:
                a = re.search(r'"a":"(\w+)"', line)[1]
                ok = '"ok":true' in line
                self.actions.setdefault(a, [0, 0])[not ok] += 1
        self.n["states"] += run.distinct
        self.n["transitions"] += max(0, run.generated - run.distinct) \
            or run.distinct
        if len(self.samples) < 2 and traces.n:
            b = mc.behaviour(traces.path, min(traces.n, 40))
            self.samples.append([short(e) for e in b[-8:]])
        for line, action, msg, _ in bad:
            sig = msg[6:] if msg.startswith("known:") else None
            if sig in self.known:
                self.seen[sig] = self.seen.get(sig, 0) + 1
                continue
            return self.violation(traces.path, line, action, msg)
        return None

    def violation(self, path, line, action, msg):
        os.makedirs(os.path.join(mc.work(), "replay"), exist_ok=True)
        name = os.path.join(mc.work(), "replay",
                            f"{self.prop}-{self.tier}-{self.seed}.ndjson")
        b = mc.behaviour(path, line)
        with open(name, "w") as f:
            for e in b:
                e.pop("par", None)
                e.pop("d", None)
                f.write(json.dumps(e) + "\n")
        for e in b[-6:]:
            print("  " + short(e))
        print(f"{self.prop}: {action}: {msg}")
        return name

    def run(self):
        quick = self.tier == "quick"
        t0 = time.time()
        mc.build_java()
        self.start_exploring(2 if quick else 4, 240 if quick else 420)
        try:
            mc.build(self.program)
            path = self.file("traces")
            traces = mc.Traces(path)
            self.drive(traces, 12000 if quick else 20000, 0,
                       long=not quick or self.prop in LONG,
                       first=True)
            if not quick:
                # while the specification is being explored
                found = self.judge(traces, workers=4)
                batch = 1
                while not found and time.time() - t0 < 330:
                    traces = mc.Traces(path)
                    self.drive(traces, 25000, batch, long=batch % 4 == 0)
                    found = self.judge(traces, workers=4)
                    batch += 1
                if found:
                    return found
                traces = mc.Traces(path)
            self.spec_behaviours(traces, 4000 if quick else 60000)
            return self.judge(traces)
        finally:
            self.stop()

    def evidence(self, wall, violations):
        n = self.n
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"),
                  "w") as f:
            json.dump(dict(
                property=self.prop, tier=self.tier, seed=self.seed,
                level="model_checking", wall_s=round(wall, 1),
                violations=violations,
                coverage=dict(
                    states=n["states"], transitions=n["transitions"],
                    traces_validated_against_impl=n["spec_traces"]
                    + n["random_traces"] + n["directed_traces"],
                    samples=self.samples,
                    events_of_real_program_judged=n["events"],
                    behaviours_generated_from_spec=n["spec_traces"],
                    random_traces=n["random_traces"],
                    directed_traces=n["directed_traces"],
                    systematic_requests=n["systematic_requests"],
                    scenarios=[dict(zip(("name", "slots", "depth"), (
                        s, *SCENARIOS[s][self.tier != "quick"])))
                        for s in self.scenarios.split()],
                    requests_accepted_and_refused=self.actions,
                    known_findings_observed=self.seen,
                    generation_cut_short=self.cut_short[:9]),
                assumptions=[
                    "decimal/ stands in for the solana-decimal dependency, "
                    "which is not available offline",
                    "harness/src/svm.rs stands in for the Solana runtime; the "
                    "token program is the genuine spl-token processor"]),
                f, indent=1)
            f.write("\n")


def short(e):
    acc = " ".join(f"{k}={v}" for k, v in e["acc"].items())
    x = "" if e["a"] == "init" else json.dumps(e["x"])
    return f"slot {e['slot']} {e['a']} {x} {acc} by {','.join(e['sig'])}: " + (
        "ok" if e["ok"] else "refused " + str(e.get("err", ""))[:100])


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t = time.time()
    c = Check(prop, tier, seed)
    try:
        found = c.run()
    except mc.NoAnswer as e:
        print(f"{prop}: no answer: {e}")
        return 2
    finally:
        import shutil
        shutil.rmtree(c.dir, ignore_errors=True)
    c.evidence(time.time() - t, 1 if found else 0)
    for sig, n in c.seen.items():
        print(f"KNOWN-FINDING: property={prop} {c.known[sig]} "
              f"({n} times in this run)")
    if found:
        print(f"VIOLATION property={prop} replay={found}")
        return 1
    print(f"{prop}: held for {c.n['events']} events of the real program and "
          f"{c.n['transitions']} steps altogether, {time.time() - t:.0f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
