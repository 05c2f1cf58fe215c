#!/usr/bin/env python3
"""Self-test of the checks: applies small edits to a scratch copy of /repo and looks
whether the named checks report (bug) or stay quiet (same).
usage: mut.py [spec names...]   specs: tools/mutants/*.py calling bug(...) and same(...)"""
import os, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ITEMS = []
def _add(kind, props, file, *pairs):
    ITEMS.append((kind, props.split(), file, pairs))
def bug(props, file, *pairs): _add("bug", props, file, *pairs)
def same(props, file, *pairs): _add("same", props, file, *pairs)
want = sys.argv[1:]
for s in sorted(glob.glob(V + "/tools/mutants/*.py")):
    if not want or os.path.basename(s)[:-3] in want:
        exec(open(s).read(), dict(bug=bug, same=same))
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local")
def one(k):
    kind, props, file, pairs = ITEMS[k]
    d = f"/tmp/w/mut{k}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    try:
        p = d + "/" + file
        s = open(p).read()
        for old, new in zip(pairs[::2], pairs[1::2]):
            if s.count(old) != 1:
                return f"BAD  spec {file}: {s.count(old)} matches of {old[:60]!r}"
            s = s.replace(old, new)
        open(p, "w").write(s)
        b = subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode:
            return f"BAD  build {file}: {b.stderr[:300]}"
        out = []
        for pr in props:
            try:
                r = subprocess.run([V + "/bin/gostlsa", "-prop", pr, "-repo", d, "-verif", d + "/.v"], env=env, capture_output=True, text=True, timeout=880)
                rc, so = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, so = 99, "timeout"
            ok = (rc == 1) if kind == "bug" else (rc == 0)
            out.append(("ok   " if ok else "FAIL ") + f"{kind:4} {pr} {file} {pairs[1].strip()[:70]!r}" + ("" if ok and kind == "same" else "\n        " + so.strip().replace("\n", "\n        ")[:(200 if ok else 900)]))
        return "\n".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get("WORKERS", "6"))) as ex:
    rs = list(ex.map(one, range(len(ITEMS))))
for r in rs: print(r)
print(sum(r.count("FAIL ") + r.count("BAD ") for r in rs), "failures of", len(ITEMS))
