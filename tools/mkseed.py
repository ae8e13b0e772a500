#!/usr/bin/env python3
"""Makes /verif/seeded/<name> from a description and verifies it in a scratch copy of /repo.

Description:
  name: C03-x
  prop: C03
  pkg: validator/pki            (the package of the demonstration)
  lib: world.go.txt             (optional, files of tools/seedlib added to the package)
  needs: ...
  breaks: ...
  edit: validator/pki/pki.go
  <<<<
  old
  ====
  new
  >>>>
  test:
  <go test file to the end, with TestDemo>
"""
import sys, os, re, json, subprocess, shutil, tempfile

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)

ENV = "export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor;"

def main(path):
    src = open(path).read()
    head, test = src.split("\ntest:\n", 1)
    f = dict(re.findall(r"^(name|prop|pkg|lib|needs|breaks): (.*)$", head, re.M))
    edits = re.findall(r"^edit: ([^\n]*)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$", head, re.M | re.S)
    out = os.path.join("/verif/seeded", f["name"])
    tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    w = os.path.join(tmp, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        for file, old, new in edits:
            p = os.path.join(w, file)
            s = open(p).read()
            if s.count(old) != 1:
                print("FAIL: %s: %d occurrences of\n%s" % (file, s.count(old), old)); return 1
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", w).stdout
        fmt = sh("gofmt -l " + " ".join(e[0] for e in edits), w).stdout
        if fmt: print("note: gofmt", fmt.strip())
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": f["prop"], "needs": f["needs"], "what_it_breaks": f["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        files = ["demo_test.go.txt"]
        open(os.path.join(out, "demo_test.go.txt"), "w").write(test)
        for l in f.get("lib", "").split():
            shutil.copy("/verif/tools/seedlib/" + l, os.path.join(out, l)); files.append(l)
        rep = ",".join('\\"$PWD/%s/zz_%s_test.go\\":\\"$d/%s\\"' % (f["pkg"], x.split(".")[0], x) for x in files)
        open(os.path.join(out, "demo.sh"), "w").write("""#!/bin/sh
# Run with the repository as the working directory.
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp) || exit 2
trap 'rm -f "$o"' EXIT
echo "{\\"Replace\\":{%s}}" > "$o"
GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor go test -vet=off -count=1 -timeout 120s -overlay "$o" -run '^TestDemo$' ./%s
""" % (rep, f["pkg"]))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        r = sh(ENV + out + "/demo.sh", w); bad = r
        sh("git stash -q", w)
        good = sh(ENV + out + "/demo.sh", w)
        sh("git stash pop -q", w)
        b = sh(ENV + "go build ./...", w)
        t = sh(ENV + "go test -vet=off -count=1 -json ./...", w)
        passed = set()
        for l in t.stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        miss = stable - passed
        ok = good.returncode == 0 and bad.returncode != 0 and b.returncode == 0 and not miss
        compiled = "[build failed]" not in bad.stdout + bad.stderr and "[setup failed]" not in bad.stdout
        ok = ok and compiled
        print(f["name"], "OK" if ok else "BAD", "base", good.returncode, "patched", bad.returncode, "build", b.returncode, "missing", sorted(miss))
        if not ok or "-v" in sys.argv:
            print(good.stdout[-1500:], good.stderr[-1500:], "-----", bad.stdout[-1500:], bad.stderr[-1500:], b.stderr[-500:])
        else:
            print("   ", [l for l in bad.stdout.splitlines() if "zz_" in l or "panic" in l][:2])
        return 0 if ok else 1
    finally:
        shutil.rmtree(tmp)
sys.exit(max(main(p) for p in sys.argv[1:] if p != "-v"))
