"""replay.py <file>: run a recorded counterexample against the real code again"""
import os, sys, json, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
import harness
v = json.load(open(sys.argv[1]))
mod = importlib.import_module(v["property"].lower())
for tier in ("quick", "thorough"):
    for name, fn, kw, budget in mod.jobs(tier):
        if name != v["job"]: continue
        j = harness.Job(name, tier, 1, 60); j.replay_env = v["env"]
        try: fn(j, **kw)
        except harness.ReplayDone as e:
            print(e.args[0] or "does not reproduce"); sys.exit(1 if e.args[0] else 0)
print("no such job"); sys.exit(2)
