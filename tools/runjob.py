"""Runs the TLC side of one job (and the replay): runjob.py PROP JOB [tier]"""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine, jobs
prop, name, tier = sys.argv[1], sys.argv[2], (sys.argv[3:] or ["quick"])[0]
job = next(j for j in jobs.PROPS[prop]["jobs"] if j.name == name)
work = os.path.join(engine.VERIF, "work", "dev")
os.makedirs(work, exist_ok=True)
t = time.time()
r = engine.run_tlc(job, tier, 1, work)
print({k: v for k, v in r.items() if k not in ("tail", "defs")}, os.path.getsize(r["file"]) >> 20, "MB")
if job.replay and not os.environ.get("NOREPLAY"):
    exe, cli = engine.build()
    t = time.time()
    n, fl = engine.replay_file(exe, r["file"], work, defs=r.get("defs"), mem=job.mem) if job.replay == "harness" else job.replay({"exe": exe, "cli": cli, "work": work, "tier": tier, "seed": 1, "prop": prop}, r["file"])
    print(n, "replayed", len(fl), "failed", round(time.time() - t, 1), "s")
    for rec, why in fl[:int(os.environ.get("N", 5))]:
        print("  ", why[:int(os.environ.get("W", 900))]); print("     ", engine.short({k: v for k, v in rec.items() if k != "base"}, 500))
