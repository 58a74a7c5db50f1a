#!/usr/bin/env python3
"""plant.py [ID...]: validates planted changes in a scratch copy and stores them under /verif/seeded."""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import bugs
W = "/tmp/sw"
OUT = "/verif/seeded"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(c, cwd=W, **kw):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    head = sh("git rev-parse HEAD", cwd="/repo").stdout.strip()
    if not os.path.isdir(W):
        shutil.copytree("/repo", W, symlinks=True)
    if sh("git rev-parse HEAD").stdout.strip() != head:
        sh("git fetch -q /repo && git checkout -q -f FETCH_HEAD")
    sh("git checkout -q -f .")


def blame_ok(b):
    """Lines that the change removes or replaces must be those of the original repository."""
    diff = sh("git diff -U0").stdout
    bad, f = [], None
    for l in diff.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
        if l.startswith("@@"):
            old = l.split()[1][1:].split(",")
            s, n = int(old[0]), int(old[1]) if len(old) > 1 else 1
            if n:
                for r in sh("git blame -s -L %d,+%d HEAD -- %s" % (s, n, f)).stdout.strip().split("\n"):
                    if not r.lstrip("^").startswith("4f67d93"):
                        bad.append(r)
    return bad


env = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="1.96-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TARGET_DIR=W + "/target", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")


def tests():
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > target/vp-test.log 2>&1; python3 /opt/vp/results.py /tmp/sw-res.json cargo:target/vp-test.log", env=env)
    d = json.load(open("/tmp/sw-res.json"))
    passed = set(d.get("passed") or d.get("pass") or [k for k, v in d.items() if v in ("pass", "passed", True)])
    return stable - passed


want = sys.argv[1:]
for b in bugs.B:
    if want and b["id"] not in want:
        continue
    d = os.path.join(OUT, b["id"])
    if not want and os.path.exists(os.path.join(d, "patch.diff")):
        continue
    fresh()
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "edit matches %d times: %r" % (s.count(old), old[:60]))
            ok = False
            break
        open(p, "w").write(s.replace(old, new))
    if not ok:
        continue
    bad = blame_ok(b)
    if bad:
        print(b["id"], "changes lines that are not original:", bad[:3])
        sh("git checkout -q -f .")
        continue
    diff = sh("git diff").stdout
    tmp = "/tmp/sw-demo"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + "/demo.rs", "w").write("mod kit;\n#[allow(unused_imports)]\nuse kit::*;\n#[allow(unused_imports)]\nuse binrw::{BinRead, BinWrite, Endian};\n#[allow(unused_imports)]\nuse fallible_iterator::FallibleIterator;\n"
        "#[allow(unused_imports)]\nuse rekordcrate::pdb::{io::Database, *};\n#[allow(unused_imports)]\nuse std::io::{Cursor, Read, Seek, SeekFrom, Write};\n\nfn main() {" + b["demo"].rstrip() + "\n}\n")
    for f in ("kit.rs", "demo.sh"):
        shutil.copy(os.path.join(here, f), tmp)
    r = sh("bash /tmp/sw-demo/demo.sh")
    if r.returncode in (0, 3):
        print(b["id"], "demo gives", r.returncode, "with the change\n", r.stdout[-1500:])
        continue
    why = r.stdout.strip().split("\n")
    miss = tests()
    if miss:
        print(b["id"], "tests fail:", sorted(miss)[:4])
        continue
    sh("git checkout -q -f .")
    r = sh("bash /tmp/sw-demo/demo.sh")
    if r.returncode != 0:
        print(b["id"], "demo gives", r.returncode, "without the change\n", r.stdout[-1500:])
        continue
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(b["id"], "planted;", [l for l in why if "panicked" in l or "assert" in l][:2])
fresh()
