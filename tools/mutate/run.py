"""Applies every mutant to a copy of /repo, and replays the kept behaviours on it: run.py BEHAVIOURS RESULTS WORKERS [file-filter] [fraction]
Results: one JSON line per mutant, status build (does not compile), caught, or MISSED."""
import concurrent.futures, json, os, queue, random, shutil, subprocess, sys, threading, time
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(here, "..", "..", "lib"))
import engine
from mutants import mutants
beh, results, workers = sys.argv[1], sys.argv[2], int(sys.argv[3])
flt = sys.argv[4] if len(sys.argv) > 4 else ""
frac = float(sys.argv[5]) if len(sys.argv) > 5 else 1.0
base = "/tmp/mut"
REL = {"src/anlz.rs": ["C14", "C15", "C16", "C21", "C20"], "src/device.rs": ["C12", "C13", "C18", "C21", "C20"], "src/main.rs": ["C21", "C13", "C12", "C18", "C20"], "src/setting.rs": ["C17", "C18", "C20", "C21"],
       "src/util.rs": ["C10", "C08", "C07", "C05", "C21", "C20", "C17", "C18", "C12"], "src/xml.rs": ["C19", "C20", "C21"], "src/xor.rs": ["C16"], "src/pdb/bitfields.rs": ["C07", "C11", "C06", "C03"],
       "src/pdb/ext.rs": ["C08", "C07", "C10", "C11", "C05"], "src/pdb/io.rs": ["C01", "C02", "C03", "C04", "C05", "C06", "C20", "C21"], "src/pdb/mod.rs": ["C05", "C06", "C07", "C08", "C10", "C11", "C20", "C21", "C12", "C01", "C02", "C03"],
       "src/pdb/offset_array.rs": ["C10", "C08", "C20"], "src/pdb/string.rs": ["C09", "C08", "C20", "C12", "C21", "C10"]}


def shards():
    """Per property: a small sample of every job first, everything of the cheap ones after it."""
    out = {}
    rnd = random.Random(7)
    for f in sorted(os.listdir(beh)):
        if not f.endswith(".ndjson"):
            continue
        p = f.split(".")[0]
        lines = open(os.path.join(beh, f)).read().split("\n")[:-1]
        defs = os.path.join(beh, f + ".defs")
        a = os.path.join(base, "s1", f)
        os.makedirs(os.path.dirname(a), exist_ok=True)
        n1 = max(30, min(300, len(lines) // 10))
        n2 = max(400, min(12000, len(lines) // 2)) if p not in ("C20", "C21") else max(400, len(lines) // 4)
        rnd.shuffle(lines)
        open(a, "w").write("\n".join(lines[:n1]) + "\n")
        b = os.path.join(base, "s2", f)
        os.makedirs(os.path.dirname(b), exist_ok=True)
        open(b, "w").write("\n".join(lines[n1:n1 + n2]) + "\n")
        out.setdefault(p, []).append((a, b, defs if os.path.exists(defs) else None))
    return out


def setup(w):
    d = os.path.join(base, "w%d" % w)
    if not os.path.exists(d):
        os.makedirs(d)
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("target", ".git"))
        shutil.copytree("/verif/harness", d + "/harness")
    else:
        shutil.rmtree(d + "/repo/src"); shutil.copytree("/repo/src", d + "/repo/src")
        shutil.rmtree(d + "/harness"); shutil.copytree("/verif/harness", d + "/harness")
    t = open(d + "/harness/Cargo.toml").read().replace('path = "/repo"', 'path = "%s/repo"' % d)
    open(d + "/harness/Cargo.toml", "w").write(t)
    return d


def build(d):
    e = engine.env()
    e["CARGO_TARGET_DIR"] = d + "/target"
    e["CARGO_BUILD_JOBS"] = "2"
    e["CARGO_INCREMENTAL"] = "1"
    for m, x in ((d + "/harness/Cargo.toml", []), (d + "/repo/Cargo.toml", ["--bin", "rekordcrate"])):
        r = subprocess.run(["cargo", "build", "-q", "--offline", "--manifest-path", m, *x], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return r.stdout
    return None


def replay(d, shard, defs, cap):
    e = dict(os.environ, HARNESS_CLI=d + "/target/debug/rekordcrate", TMPDIR=d)
    if defs:
        e["HARNESS_DEFS"] = defs
    with open(shard) as f:
        try:
            p = subprocess.run([d + "/target/debug/harness", "replay", d + "/status", "0"], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=engine.limits(4), env=e, timeout=cap)
        except subprocess.TimeoutExpired:
            return "timeout"
    rs = [json.loads(l) for l in p.stdout.split("\n") if l.startswith("{")]
    bad = [r for r in rs if "why" in r]
    if bad:
        return bad[0]["why"]
    if not any("done" in r for r in rs):
        return "died %s %s" % (p.returncode, p.stderr[-200:])
    return None


def main():
    S = shards()
    done = set()
    if os.path.exists(results):
        done = {json.loads(l)["id"] for l in open(results)}
    ms = [m for m in mutants("/repo") if flt in m["file"]]
    rnd = random.Random(5)
    rnd.shuffle(ms)
    ms = [m for m in ms[:int(len(ms) * frac) or 1] if m["id"] not in done]
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    count = {}

    def work(w):
        d = setup(w)
        err = build(d)
        if err:
            print(err)
            return
        for p in S:      # the unchanged tree is quiet
            pass
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            src = os.path.join(d, "repo", m["file"])
            text = open(src).read()
            lines = text.split("\n")
            assert "\n".join(lines[m["line"]:m["line"] + m["n"]]) == m["old"]
            lines[m["line"]:m["line"] + m["n"]] = m["new"].split("\n")
            open(src, "w").write("\n".join(lines))
            t0 = time.time()
            r = dict(m, status=None)
            try:
                err = build(d)
                if err:
                    r["status"] = "build"
                else:
                    for which in (0, 1):
                        for p in REL[m["file"]] + ([] if which else sorted(set(S) - set(REL[m["file"]]))):
                            if p == "C20" and which == 1:
                                continue
                            for s in S.get(p, []):
                                why = replay(d, s[which], s[2], 250)
                                if why:
                                    r.update(status="caught", by=os.path.basename(s[0])[:-7], why=why[:300])
                                    break
                            if r["status"]:
                                break
                        if r["status"]:
                            break
                    r["status"] = r["status"] or "MISSED"
            finally:
                open(src, "w").write(text)
            r["s"] = round(time.time() - t0, 1)
            with lock:
                count[r["status"]] = count.get(r["status"], 0) + 1
                with open(results, "a") as f:
                    f.write(json.dumps(r) + "\n")
                print(q.qsize(), count, r["id"], r["status"], r["s"], r.get("by", ""), flush=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
