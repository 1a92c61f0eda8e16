#!/usr/bin/env python3
"""trybug.py batch.py...: B = [(id, property, edits)]; applies each bug in a scratch copy, tests, runs the property's check and lists every other check that fires."""
import sys, os, subprocess, shutil, tempfile, runpy, re
from concurrent.futures import ThreadPoolExecutor
only = os.environ.get("ONLY", "").split()
def one(item):
    id, prop, edits = item
    d = tempfile.mkdtemp(prefix="refw.", dir="/tmp"); w = d + "/repo"
    try:
        shutil.copytree("/repo", w, symlinks=True)
        os.mkdir(d + "/v"); os.symlink("/verif/refs", d + "/v/refs"); shutil.copy("/verif/KNOWN_FINDINGS.txt", d + "/v")
        for f, o, n in edits:
            s = open(f"{w}/{f}").read()
            if s.count(o) < 1: return f"{id}: NOMATCH {o[:60]!r}"
            open(f"{w}/{f}", "w").write(s.replace(o, n, 1))
        e = dict(os.environ); e.pop("GOFLAGS", None)
        p = subprocess.run("go vet . ./cmd/abnf-gen ./cmd/pap", shell=True, cwd=w, env=e, capture_output=True, text=True)
        if p.returncode: return f"{id}: NOBUILD {p.stderr[:400]}"
        t = ""
        if not os.environ.get("NOTEST"):
            p = subprocess.run("go test . ./cmd/...", shell=True, cwd=w, env=e, capture_output=True, text=True)
            if "FAIL" in p.stdout: t = " TESTFAIL " + " ".join(re.findall(r"--- FAIL: (\S+)", p.stdout)[:3])
        p = subprocess.run([os.environ.get("CHECKER","/tmp/checker"), "-repo", w, "all"], capture_output=True, text=True, env=dict(e, VERIF_DIR=d + "/v"))
        fired = sorted(set(re.findall(r"VIOLATION property=(\S+)", p.stdout)))
        und = re.findall(r"UNDECIDED property=%s .*" % prop, p.stdout)
        st = "CAUGHT" if prop in fired else "MISSED"
        return f"{id}: {st} {prop}{t} fired={' '.join(fired)}" + ("" if st == "CAUGHT" else "".join("\n    " + x[:250] for x in und[:3]))
    finally: shutil.rmtree(d)
R = []
for f in sys.argv[1:]: R += runpy.run_path(f)["B"]
if only: R = [x for x in R if x[0] in only]
with ThreadPoolExecutor(7) as ex:
    for s in ex.map(one, R): print(s, flush=True)
