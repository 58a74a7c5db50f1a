"""Tries hand-written changes of behaviour: try.py BEHAVIOURS CHANGES.py WORKERS [id...]. CHANGES.py has C = [(id, file, old, new)...].
All kept behaviours of the concerned properties are replayed on each (see run.py); prints which job notices it."""
import concurrent.futures, os, queue, runpy, sys, threading, time
here = os.path.dirname(os.path.abspath(__file__))
sys.argv, args = [sys.argv[0], sys.argv[1], "/dev/null", "0"], sys.argv[1:]
run = runpy.run_path(os.path.join(here, "run.py"), run_name="lib")
S = run["shards"]()
C = [c for c in runpy.run_path(args[1])["C"] if len(args) < 4 or c[0] in args[3:]]
q = queue.Queue()
for c in C:
    if c[2] not in open("/repo/" + c[1]).read():
        print("not found", c[0])
        continue
    q.put(c)
lock = threading.Lock()


def work(w):
    d = run["setup"](w)
    err = run["build"](d)
    assert not err, err
    while True:
        try:
            name, file, old, new = q.get_nowait()
        except queue.Empty:
            return
        src = os.path.join(d, "repo", file)
        text = open(src).read()
        t0, out = time.time(), "MISSED"
        open(src, "w").write(text.replace(old, new, 1))
        try:
            err = run["build"](d)
            if err:
                out = "build\n" + err[-1500:]
            else:
                todo = [(which, p, s) for which in (0, 1) for p in run["REL"][file] + ([] if which else sorted(set(S) - set(run["REL"][file])))
                        for s in S.get(p, []) if not (p == "C20" and which)]
                by = []
                for which, p, s in todo:
                    if any(b.startswith(p) for b, _ in by):
                        continue
                    why = run["replay"](d, s[which], s[2], 250)
                    if why:
                        by.append((os.path.basename(s[0])[:-7], why))
                        if which or p == name[:3].upper():
                            break
                if by:
                    out = "caught %s | %s" % (" ".join(b for b, _ in by), by[0][1][:150])
        finally:
            open(src, "w").write(text)
        with lock:
            print("%-28s %5.0f s  %s" % (name, time.time() - t0, out), flush=True)


ts = [threading.Thread(target=work, args=(w,)) for w in range(int(args[2]))]
[t.start() for t in ts]
[t.join() for t in ts]
