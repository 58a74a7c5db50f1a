"""Runs the quick TLC job of every property and keeps the behaviours in OUT (for tools/mutate/run.py). They do not depend on the code."""
import concurrent.futures, json, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "lib"))
import engine, jobs
out = sys.argv[1]
only = sys.argv[2:]
os.makedirs(out, exist_ok=True)


def one(a):
    p, j = a
    work = os.path.join(out, "work", p)
    os.makedirs(work, exist_ok=True)
    r = engine.run_tlc(j, "quick", 1, work)
    dst = os.path.join(out, "%s.%s.ndjson" % (p, j.name))
    shutil.move(r["file"], dst)
    if r.get("defs"):
        json.dump(r["defs"], open(dst + ".defs", "w"))
    shutil.rmtree(os.path.join(work, j.name))
    print(p, j.name, r["behaviours"], r["wall_s"], os.path.getsize(dst) >> 20, "MB", flush=True)


todo = [(p, j) for p, s in sorted(jobs.PROPS.items()) for j in s["jobs"] if "quick" in j.tiers and j.replay == "harness" and (not only or p in only or j.name in only)]
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    list(ex.map(one, todo))
