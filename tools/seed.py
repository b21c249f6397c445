"""Planted bugs: tools/seed.py make FILE... writes seeded/<id>/ for each one
defined there; tools/seed.py test [ID...] confirms them (builds, stable tests,
demonstration) and runs the property's check on each, in /repo, which is
restored; results go to work/seeds.json."""
import glob, json, os, runpy, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
RES = os.path.join(VERIF, "work", "seeds.json")


def sh(cmd, timeout=900, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          timeout=timeout, **k)


def clean():
    sh("git -C /repo checkout -q -- .")
    r = sh("git -C /repo status --short")
    assert not r.stdout.strip(), r.stdout


def make(path):
    defs = runpy.run_path(path)["SEEDS"]
    for s in defs:
        d = os.path.join(SEEDED, s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        clean()
        try:
            for f, old, new in s["edits"]:
                p = os.path.join("/repo/programs", s["program"], "src", f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = sh("git -C /repo diff").stdout
        finally:
            clean()
        open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=s["property"], needs=s["needs"],
                       what_it_breaks=s["breaks"]),
                  open(d + "/meta.json", "w"), indent=1)
        shutil.copytree(VERIF + "/harness", d + "/harness",
                        ignore=shutil.ignore_patterns("target"))
        shutil.copytree(VERIF + "/decimal", d + "/decimal",
                        ignore=shutil.ignore_patterns("target"))
        os.makedirs(d + "/lib")
        for f in ("world.py", "directed.py"):
            shutil.copy(f"{VERIF}/lib/{f}", d + "/lib")
        t = open(VERIF + "/tools/demo.sh").read()
        open(d + "/demo.sh", "w").write(t.replace("PROGRAM", s["program"]))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(
            "import os, sys\nfrom world import World, U64\n"
            "from directed import farm, pool, put, take, at\n\n"
            "w = World(open(os.devnull, \"w\"), sys.argv[1])\n"
            + s["demo"].strip() + "\n")
        print("made", s["id"])


def program(id):
    t = open(f"{SEEDED}/{id}/patch.diff").read()
    return "farming" if "programs/farming" in t else "amm"


def demo(id):
    r = sh(f"{SEEDED}/{id}/demo.sh", cwd="/repo", env={
        **os.environ, "DEMO_SCRATCH": "/tmp/sd/" + program(id)})
    return r.returncode, (r.stdout + r.stderr)[-400:]


def test(ids, checks=True):
    os.makedirs(os.path.dirname(RES), exist_ok=True)
    for id in ids:
        meta = json.load(open(f"{SEEDED}/{id}/meta.json"))
        res = dict(property=meta["property"])
        clean()
        rc, out = demo(id)
        res["demo_unchanged"] = rc
        if rc:
            print(out)
        try:
            r = sh(f"git -C /repo apply {SEEDED}/{id}/patch.diff")
            res["applies"] = r.returncode == 0
            r = sh("bash /opt/vp/build.sh")
            res["builds"] = r.returncode == 0
            sh("rm -f /tmp/sd/t.json; bash /opt/vp/test.sh /tmp/sd/t.json")
            t = json.load(open("/tmp/sd/t.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            names = base.get("stable") or base.get("passed") or base
            bad = [n for n in names if n not in set(passed(t))]
            res["tests_failed"] = bad
            rc, out = demo(id)
            res["demo_patched"] = rc
            res["demo_says"] = out[-200:]
            if checks:
                t0 = time.time()
                r = sh(f"bin/check {meta['property']} quick", cwd=VERIF)
                res["check"] = r.returncode
                res["check_says"] = r.stdout[-300:]
                res["check_s"] = round(time.time() - t0)
        finally:
            clean()
        ok = res["demo_unchanged"] == 0 and res["demo_patched"] not in (0, 3) \
            and res["builds"] and res["applies"] and not res["tests_failed"]
        res["valid"] = ok
        print(id, meta["property"], "valid" if ok else "INVALID " + json.dumps(
            res), "caught" if res.get("check") == 1 else
            "MISSED rc=%s %s" % (res.get("check"), res.get("check_says")),
            flush=True)
        if ok and res.get("check") == 1:
            print("    ", res["check_says"].strip().split("\n")[-2][:150])
        try:
            all = json.load(open(RES))
        except OSError:
            all = {}
        all[id] = res
        json.dump(all, open(RES, "w"), indent=1)


def passed(t):
    for k in ("passed", "pass", "ok"):
        if k in t:
            return t[k]
    return [n for n, v in t.items() if v in ("ok", "pass", "passed", True)]


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for p in sys.argv[2:]:
            make(p)
    else:
        test(sys.argv[2:] or sorted(os.listdir(SEEDED)))
