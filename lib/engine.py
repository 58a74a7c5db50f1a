"""Runs TLC on the specification, replays the exported behaviours on the real code, writes evidence."""
import concurrent.futures, fcntl, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- building
def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.96-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", RUSTFLAGS="--cfg rekordcrate_verif", RUST_BACKTRACE="0",
             CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true", CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="true",
             PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e


def tree_hash():
    h = hashlib.sha256()
    for base in ("src", "Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def build():
    """Builds the harness and the tool from /repo's working tree."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(TARGET, ".repo-hash")
        now = tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        e = env()

        def cargo(*a):
            r = subprocess.run(["cargo", *a], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            if r.returncode != 0:
                raise ToolError("cargo %s failed:\n%s" % (" ".join(a), r.stdout[-6000:]))
        hm = os.path.join(VERIF, "harness", "Cargo.toml")
        if old is not None and old != now:
            # Do not rely on file times: force the crate to be rebuilt when its content differs.
            cargo("clean", "--offline", "--manifest-path", hm, "-p", "rekordcrate", "--target-dir", TARGET)
            os.unlink(stamp)
        cargo("build", "--offline", "--locked", "--manifest-path", hm, "--target-dir", TARGET)
        cargo("build", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--bin", "rekordcrate", "--target-dir", TARGET)
        with open(stamp, "w") as f:
            f.write(now)
    return os.path.join(TARGET, "debug", "harness"), os.path.join(TARGET, "debug", "rekordcrate")


# ---------------------------------------------------------------- TLC
class Job:
    """One TLC run. consts: TLA+ values as text. Values may be (quick, thorough) pairs."""

    def __init__(self, name, module, consts=None, inv=(), props=(), spec="Spec", view=None, constraint=None,
                 action_constraint=None, workers=2, simulate=None, extra=(), post=None, tiers=("quick", "thorough"),
                 timeout=700, heap="3g", replay="harness", init=None, next=None, deadlock=False, mem=6, prepare=None, salt=0):
        self.__dict__.update(locals())


def pick(v, tier):
    return (v[0] if tier == "quick" else v[1]) if isinstance(v, tuple) else v


def run_tlc(job, tier, seed, work, inputs=None):
    """Runs TLC; returns a dict with counts and the path of the exported behaviours."""
    d = os.path.join(work, job.name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    if job.prepare:
        with open(os.path.join(d, "input.json"), "w") as f:
            json.dump(job.prepare(tier, seed), f)
    cfg = []
    if job.init:
        cfg += ["INIT " + job.init, "NEXT " + job.next]
    else:
        cfg.append("SPECIFICATION " + job.spec)
    if job.consts:
        cfg.append("CONSTANTS")
        for k, v in job.consts.items():
            v = str(pick(v, tier))
            cfg.append("  %s %s" % (k, v if v.startswith("<-") else "= " + v))
    for i in job.inv:
        cfg.append("INVARIANT " + i)
    for i in job.props:
        cfg.append("PROPERTY " + i)
    if job.view:
        cfg.append("VIEW " + job.view)
    if job.constraint:
        cfg.append("CONSTRAINT " + job.constraint)
    if job.action_constraint:
        cfg.append("ACTION_CONSTRAINT " + job.action_constraint)
    if job.post:
        cfg.append("POSTCONDITION " + job.post)
    if not job.deadlock:
        cfg.append("CHECK_DEADLOCK FALSE")
    with open(os.path.join(d, job.name + ".cfg"), "w") as f:
        f.write("\n".join(cfg) + "\n")
    cmd = ["java", "-Xss64m", "-Xmx" + job.heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC",
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-workers", str(job.workers), "-config", job.name + ".cfg"]
    sim = pick(job.simulate, tier)
    if sim:
        cmd += ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1]), "-seed", str(seed + 1000 * job.salt)]
    else:
        cmd += ["-fp", "3"]
    cmd += list(job.extra) + [job.module + ".tla"]
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = ""
    out = os.path.join(d, "tlc.out")
    t0 = time.time()
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=job.timeout).returncode
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % job.name)
    beh = os.path.join(d, "behaviours.ndjson")
    res = {"job": job.name, "module": job.module, "wall_s": round(time.time() - t0, 1), "behaviours": 0, "rc": rc}
    seen, tail = set(), []
    with open(out, errors="replace") as f, open(beh, "w") as g:
        for line in f:
            if line.startswith('"{'):
                try:
                    s = json.loads(line)
                except ValueError:
                    raise ToolError("bad record in %s: %s" % (out, line[:200]))
                h = hash(s)
                if h in seen:
                    continue
                seen.add(h)
                if s.startswith('{"k":"def"'):
                    r = json.loads(s)
                    res.setdefault("defs", {})[r["name"]] = r["value"]
                    continue
                g.write(s + "\n")
                res["behaviours"] += 1
            else:
                tail.append(line)
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    res["generated"], res["states"] = int(m[1]), int(m[2])
                m = re.match(r"Finished computing initial states: (\d+) (?:distinct )?state", line)
                if m:
                    res["initial"] = int(m[1])
                m = re.match(r"The number of states generated: (\d+)", line)
                if m:
                    res["generated"] = res["states"] = int(m[1])
                if line.startswith("Progress: ") and sim:
                    m = re.search(r"(\d+) states checked", line)
                    if m:
                        res["generated"] = res["states"] = int(m[1])
    res["file"] = beh
    full = "".join(tail)
    at = full.find("Error:")
    res["tail"] = full[at:at + 1500] if at >= 0 else full[-1500:]
    res["initial"] = res.get("initial", 0)
    res["transitions"] = max(0, res.get("generated", 0) - res["initial"])
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    if rc != 0 and not getattr(job, "trace", False):
        raise ToolError("TLC found the specification itself wrong, or failed, on %s (rc %d):\n%s" % (job.name, rc, res["tail"]))
    if "generated" not in res:
        raise ToolError("no state count from TLC on %s:\n%s" % (job.name, res["tail"]))
    return res


# ---------------------------------------------------------------- replay
def limits(mem_gb=6):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.RLIM_INFINITY))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def replay_shard(exe, shard, idx, extra_env=None, mem=6):
    """Replays the records in file `shard`; returns (count, [(line number, why)])."""
    status = shard + ".status"
    fails, n, first, deaths = [], 0, 0, 0
    total = sum(1 for _ in open(shard))
    while first < total:
        with open(status, "w") as f:
            f.write("")
        e = dict(os.environ)
        e.update(extra_env or {})
        e["HARNESS_CLI"] = os.path.join(TARGET, "debug", "rekordcrate")
        with open(shard) as f:
            p = subprocess.Popen([exe, "replay", status, str(first)], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 text=True, errors="replace", preexec_fn=limits(mem), env=e)
            try:
                so, se = p.communicate(timeout=800)
            except subprocess.TimeoutExpired:
                p.kill()
                raise ToolError("replay timed out")
        done = False
        for line in so.splitlines():
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if "done" in r:
                n += r["n"]
                done = True
            else:
                fails.append((r["i"], r["why"]))
        if done:
            break
        st = open(status).read().strip()
        if p.returncode == 98 or not st.isdigit():
            raise ToolError("harness failed: rc %s %s" % (p.returncode, se[-1000:]))
        at = int(st)
        n += at - first + 1
        why = "did not finish within the time limit" if p.returncode == 97 else \
              "the process died: %s %s" % (signal.Signals(-p.returncode).name if p.returncode < 0 else "exit status %d" % p.returncode, se.strip()[-300:])
        fails.append((at, why))
        deaths += 1
        if deaths > 25:
            break
        first = at + 1
    return n, fails


def inline(rec, defs):
    """A record with its references to shared definitions ("@name") replaced by their values."""
    return {k: defs.get(v[1:], v) if isinstance(v, str) and v.startswith("@") else v for k, v in rec.items()}


def replay_file(exe, path, work, extra_env=None, defs=None, mem=6):
    if defs:
        with open(path + ".defs", "w") as f:
            json.dump(defs, f)
        extra_env = dict(extra_env or {}, HARNESS_DEFS=path + ".defs")
    lines = [l for l in open(path).read().split("\n") if l]
    if not lines:
        return 0, []
    k = max(1, min(NPROC, len(lines) // 20 + 1))
    shards = []
    for s in range(k):
        p = "%s.%d" % (path, s)
        with open(p, "w") as f:
            f.write("\n".join(lines[s::k]) + "\n")
        shards.append(p)
    n, fails = 0, []
    with concurrent.futures.ThreadPoolExecutor(k) as ex:
        for s, (c, fl) in enumerate(ex.map(lambda a: replay_shard(exe, a[1], a[0], extra_env, mem), enumerate(shards))):
            n += c
            fails += [(inline(json.loads(lines[i * k + s]), defs or {}), why) for i, why in fl]
    for p in shards:
        os.unlink(p)
        if os.path.exists(p + ".status"):
            os.unlink(p + ".status")
    return n, fails


# ---------------------------------------------------------------- known findings
def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def short(o, n=400):
    s = json.dumps(o)
    return s if len(s) <= n else s[:n] + "..."


# ---------------------------------------------------------------- main
def run(prop, tier, seed):
    import jobs
    t0 = time.time()
    spec = jobs.PROPS[prop]
    work = os.path.join(VERIF, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    js = [j for j in spec["jobs"] if tier in j.tiers]
    results, fails, total, samples, kinds = [], [], 0, [], {}
    notes = []
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        futs = [ex.submit(run_tlc, j, tier, seed, work) for j in js]
        exe, cli = build()
        built = time.time() - t0
        ctx = {"exe": exe, "cli": cli, "work": work, "tier": tier, "seed": seed, "prop": prop}
        for j, fu in zip(js, futs):
            r = fu.result()
            results.append(r)
            if r["behaviours"] == 0 and j.replay:
                raise ToolError("job %s exported no behaviour" % j.name)
            if j.replay == "harness":
                n, fl = replay_file(exe, r["file"], work, defs=r.get("defs"), mem=j.mem)
            elif j.replay is None:
                n, fl = 0, []
            else:
                n, fl = j.replay(ctx, r["file"])
            r["replayed"] = n
            if j.replay and n < r["behaviours"] and not fl:
                raise ToolError("only %d of %d behaviours were replayed for %s" % (n, r["behaviours"], j.name))
            total += n
            for rec, why in fl:
                fails.append((j.name, rec, why))
            with open(r["file"]) as f:
                rows = f.read().split("\n")[:-1]
            if rows:
                rnd = random.Random(seed)
                for s in rnd.sample(rows, min(2, len(rows))):
                    if len(samples) < 8:
                        samples.append({"job": j.name, "behaviour": s[:600]})
        for fn in spec.get("extra", []):
            ex_r = fn(ctx)          # {"states","transitions","traces","fails":[(rec,why)],"samples","notes"}
            results.append({"job": ex_r["name"], "states": ex_r.get("states", 0), "transitions": ex_r.get("transitions", 0),
                            "behaviours": ex_r["traces"], "replayed": ex_r["traces"], "initial": 0})
            total += ex_r["traces"]
            fails += [(ex_r["name"], rec, why) for rec, why in ex_r["fails"]]
            samples += ex_r.get("samples", [])[:2]
    # verdict
    kf = [f for f in known()["findings"] if f["property"] == prop]
    fresh, hit = [], {}
    for job, rec, why in fails:
        m = next((f for f in kf if f["job"] == job and f["record"] == rec), None)
        if m:
            hit[m["what"]] = hit.get(m["what"], 0) + 1
        else:
            fresh.append((job, rec, why))
    for f in kf:
        if f["what"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for i, (job, rec, why) in enumerate(fresh[:5]):
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "job": job, "why": why, "record": rec}, f)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  job %s: %s" % (job, why[:700]))
        print("  record: %s" % short(rec))
    if len(fresh) > 5:
        print("  ... %d violations in all" % len(fresh))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": sum(r.get("states", 0) for r in results), "transitions": sum(r.get("transitions", 0) for r in results),
                       "traces_validated_against_impl": total, "exhaustive": all(not pick(j.simulate, tier) for j in js),
                       "jobs": [{k: r.get(k) for k in ("job", "states", "transitions", "behaviours", "replayed", "wall_s")} for r in results],
                       "samples": samples},
          "assumptions": spec.get("assumptions", []), "build_s": round(built, 1),
          "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d states, %d transitions, %d behaviours replayed, %d violations, %.1f s" % (
        prop, tier, ev["coverage"]["states"], ev["coverage"]["transitions"], total, len(fresh), ev["wall_s"]))
    if not fresh:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if fresh else 0


def replay_one(path):
    import jobs
    r = json.load(open(path))
    job = next((j for j in jobs.PROPS[r["property"]]["jobs"] if j.name == r["job"]), None)
    exe, cli = build()
    work = os.path.join(VERIF, "work", "replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    f = os.path.join(work, "one.ndjson")
    with open(f, "w") as g:
        g.write(json.dumps(r["record"]) + "\n")
    if job is None:
        print("recorded trace; rerun the check to reproduce:", r["why"])
        return 2
    if job.replay == "harness":
        n, fl = replay_file(exe, f, work)
    else:
        n, fl = job.replay({"exe": exe, "cli": cli, "work": work, "tier": "quick", "seed": 1, "prop": r["property"]}, f)
    for _, why in fl:
        print("VIOLATION property=%s replay=%s\n  %s" % (r["property"], path, why))
    print("replayed %d, failed %d" % (n, len(fl)))
    return 1 if fl else 0


def main(argv):
    try:
        if not argv:
            print(__doc__)
            return 2
        if argv[0] == "build":
            build()
            return 0
        if argv[0] == "replay":
            return replay_one(argv[1])
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return run(argv[0], tier, seed)
    except ToolError as e:
        print("TOOL ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2
