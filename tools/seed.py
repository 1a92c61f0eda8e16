#!/usr/bin/env python3
"""seed.py FILE...: (re)plants the bugs described in tools/seeds/*.json-like python files.
Each bug: id, property, edits [(file, old, new)], demo (Go test body), needs, breaks.
Confirms in a scratch copy: builds, stable tests pass, demo passes without and fails with it."""
import re, sys, os, subprocess, shutil, json, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = '''#!/bin/bash
# exit 0 when the property holds on the demonstrated case, non-zero otherwise
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
printf '{"Replace":{"%s/zz_seed_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" >"$d/o.json"
go test -count=1 -timeout 120s -overlay "$d/o.json" -run '^TestSeedDemo$' .
'''
IMPORTS = [("bytes","bytes."),("fmt","fmt."),("strings","strings."),("regexp","regexp."),("math/rand","rand."),("errors","errors."),("os","os."),("os/exec","exec."),("path/filepath","filepath."),("sort","sort."),("reflect","reflect.")]
def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
def stable(cwd):
    # run the repository's tests in the copy; return the missing stable tests
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="")
    env.pop("GOWORK", None)
    r = sh("go test -json -vet=off -count=1 -timeout 10m ./... ./cmd/pap/...", cwd, env)
    for l in r.stdout.splitlines():
        try: o = json.loads(l)
        except ValueError: continue
        if o.get("Test") and o.get("Action") == "pass": want.discard(o["Package"] + "/" + o["Test"])
    return sorted(want)
def main():
    bugs = []
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        bugs += ns["BUGS"]
    only = os.environ.get("ONLY", "").split()
    for b in bugs:
        if only and b["id"] not in only: continue
        d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        try:
            w = os.path.join(d, "repo"); sh(f"cp -a {REPO} {w}", "/")
            sd = os.path.join(d, "seed"); os.makedirs(sd)
            body = b["demo"]
            full = body + b.get("helpers", "")
            imps = [i for i, p in IMPORTS if re.search(r"\b" + re.escape(p), full)]
            src = "package goabnf_test\n\nimport (\n" + "".join(f'\t"{i}"\n' for i in imps) + '\t"testing"\n' + ('\n\tgoabnf "github.com/pandatix/go-abnf"\n' if "goabnf." in full else "") + ")\n\n" + b.get("helpers", "") + "func TestSeedDemo(t *testing.T) {\n" + body + "\n}\n"
            open(sd + "/demo_test.go", "w").write(src)
            sh("gofmt -w " + sd + "/demo_test.go", "/")
            open(sd + "/demo.sh", "w").write(DEMO); os.chmod(sd + "/demo.sh", 0o755)
            r0 = sh(sd + "/demo.sh", w)
            if r0.returncode != 0: print(b["id"], "DEMO FAILS UNCHANGED", (r0.stdout + r0.stderr)[-800:]); continue
            bad = False
            for f, old, new in b["edits"]:
                p = os.path.join(w, f); s = open(p).read()
                if s.count(old) != b.get("count", 1): print(b["id"], "EDIT MATCHES", s.count(old), f, repr(old[:50])); bad = True; break
                open(p, "w").write(s.replace(old, new))
            if bad: continue
            rb = sh("go build ./... && go vet . && cd cmd/pap && go build ./...", w)
            if rb.returncode: print(b["id"], "NO BUILD", rb.stderr[-500:]); continue
            r1 = sh(sd + "/demo.sh", w)
            if r1.returncode == 0: print(b["id"], "DEMO PASSES WITH BUG"); continue
            fails = stable(w)
            if fails: print(b["id"], "TESTS FAIL", fails[:5]); continue
            diff = sh("git diff", w).stdout
            o = os.path.join(here, "seeded", b["id"]); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
            open(o + "/patch.diff", "w").write(diff)
            for f in ("demo.sh", "demo_test.go"): shutil.copy2(sd + "/" + f, o)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
            print(b["id"], "OK", [l for l in (r1.stdout).splitlines() if "demo_test" in l or "panic" in l][:1])
        finally:
            shutil.rmtree(d, ignore_errors=True)
main()
