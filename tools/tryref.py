#!/usr/bin/env python3
"""tryref.py batch.py...: applies each behaviour-preserving refactoring in a scratch copy, builds, tests, runs DIFFALL."""
import sys, os, subprocess, shutil, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
only = os.environ.get("ONLY", "").split()
def one(item):
    id, edits = item
    d = tempfile.mkdtemp(prefix="refw.", dir="/tmp"); w = d + "/repo"
    try:
        shutil.copytree("/repo", w, symlinks=True)
        os.mkdir(d + "/v"); os.symlink("/verif/refs", d + "/v/refs"); shutil.copy("/verif/KNOWN_FINDINGS.txt", d + "/v")
        for f, o, n in edits:
            s = open(f"{w}/{f}").read()
            if s.count(o) < 1: return f"{id}: NOMATCH {o[:60]!r}"
            open(f"{w}/{f}", "w").write(s.replace(o, n, 1))
        e = dict(os.environ); e.pop("GOFLAGS", None)
        p = subprocess.run("go vet . ./cmd/abnf-gen ./cmd/pap", shell=True, cwd=w, env=e, capture_output=True, text=True)
        if p.returncode: return f"{id}: NOBUILD {p.stderr[:400]}"
        t = ""
        if not os.environ.get("NOTEST"):
            p = subprocess.run("go test . ./cmd/...", shell=True, cwd=w, env=e, capture_output=True, text=True)
            if "FAIL" in p.stdout: t = " TESTFAIL " + p.stdout[-300:]
        p = subprocess.run([os.environ.get("CHECKER","/tmp/checker"), "-repo", w, "DIFFALL", "C02", "C03", "C18", "C32"], capture_output=True, text=True, env=dict(e, VERIF_DIR=d+"/v"))
        lines = p.stdout.splitlines()
        out = []
        for i, l in enumerate(lines):
            if l.startswith(("DIFFERS", "UNKNOWN", "PE", "VIOLATION", "  violated")):
                out.append(l + " :: " + " ".join(x.strip() for x in lines[i+1:i+int(os.environ.get("L","3"))])[:int(os.environ.get("W","220"))])
        st = "ALARM" if any(x.startswith(("DIFFERS", "VIOLATION")) for x in out) else ("unknown" if out else "same")
        return f"{id}: {st}{t}" + "".join("\n    " + x for x in out)
    finally: shutil.rmtree(d)
R = []
for f in sys.argv[1:]: R += runpy.run_path(f)["R"]
if only: R = [x for x in R if x[0] in only]
with ThreadPoolExecutor(7) as ex:
    for s in ex.map(one, R): print(s, flush=True)
