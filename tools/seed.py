#!/usr/bin/env python3
# usage: seed.py ID PROP FILE   with FILE a spec: lines "@@ file", old text, "==>", new text, ..., then "## demo" Go test body,
# "## needs" text, "## breaks" text. Confirms the change in a scratch copy and writes /verif/seeded/ID.
import sys, os, subprocess, tempfile, shutil, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# fails when the change is present
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
. /opt/vp/env.sh 2>/dev/null
printf '{"Replace":{"%s/zz_seed_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
timeout 120 go test -vet=off -count=1 -timeout 60s -overlay "$t/o.json" -run 'TestSeed' .
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def main():
    sid, prop, spec = sys.argv[1:4]
    txt = open(spec).read()
    parts = re.split(r'^## (demo|needs|breaks)\n', txt, flags=re.M)
    sec = dict(zip(parts[1::2], parts[2::2]))
    edits = []
    for blk in re.split(r'^@@ ', parts[0], flags=re.M)[1:]:
        f, rest = blk.split("\n", 1)
        old, new = rest.split("\n==>\n", 1)
        edits.append((f.strip(), old, new.rstrip("\n")))
    w = tempfile.mkdtemp(prefix="seed")
    try:
        run("git worktree prune", "/repo")
        run(f"cp -a /repo/. {w}/", "/")
        for f, old, new in edits:
            s = open(f"{w}/{f}").read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(f"{w}/{f}", "w").write(s.replace(old, new))
        r = run("gofmt -l .", w)
        p = run("git diff", w).stdout
        d = f"{V}/seeded/{sid}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(p)
        body = sec["demo"]
        imports = ['"testing"'] + [f'"{m}"' for m in ("math", "fmt", "time") if re.search(r'\b%s\.' % m, body)]
        open(d + "/demo_test.go", "w").write("package cp\n\nimport (\n" + "".join("\t%s\n" % i for i in imports) + ")\n\n" + body)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=sec["needs"].strip(), what_it_breaks=sec["breaks"].strip()), open(d + "/meta.json", "w"), indent=1)
        env = ". /opt/vp/env.sh; "
        ok = True
        r = run(env + "go build ./... && go build -tags debug ./... && go test -vet=off -count=1 ./...", w, executable="/bin/bash")
        if r.returncode: print("BUILD/TEST FAIL", r.stdout[-800:], r.stderr[-800:]); ok = False
        r = run(f"bash {d}/demo.sh", w, executable="/bin/bash")
        if r.returncode == 0: print("DEMO PASSES WITH PATCH"); ok = False
        elif "[build failed]" in r.stdout: print("DEMO BUILD", r.stdout[-800:], r.stderr[-800:]); ok = False
        else: print("with patch:", " | ".join(l.strip() for l in r.stdout.splitlines() if "_test.go" in l or "panic" in l)[:300])
        r = run(f"bash {d}/demo.sh", "/repo", executable="/bin/bash")
        if r.returncode: print("DEMO FAILS ON /repo", r.stdout[-800:], r.stderr[-800:]); ok = False
        if not ok: sys.exit(1)
        print("OK", sid)
        if len(sys.argv) > 4 and sys.argv[4] == "-check":
            r = run(f"VERIF_REPO={w} VERIF_TIER=quick timeout 900 bash {V}/check.sh {prop}", V, executable="/bin/bash")
            print("check exit", r.returncode, "|", " ".join(l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("OK"))[:200])
    finally:
        shutil.rmtree(w)
main()
