"""Executes a stored behaviour and has it judged again."""
import json, os, sys
import machinery as mc
from check import program, short
from world import World

prop, path = sys.argv[1:]
p = program(prop)
mc.build_java()
mc.build(p)
out = mc.Traces(os.path.join(mc.work(), f"again.{os.getpid()}"))
w = World(out, mc.target(p))
with open(path) as f:
    for line in f:
        print(short(w.raw(json.loads(line))))
w.close()
out.close()
bad, _ = mc.validate(p, out.path, out.n, prop)
os.remove(out.path)
for line, action, msg, _ in bad:
    print(f"line {line}: {action}: {msg}")
sys.exit(1 if bad else 0)
