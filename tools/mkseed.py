"""mkseed(id, property, [(file, old, new)], needs, breaks, demo): writes /verif/seeded/<id>. Development tool."""
import json, os, subprocess, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/sh
# Runs the test in demo.go against the package in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
o=$(mktemp)
trap 'rm -f "$o"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%szz_demo_test.go\\": \\"$d/demo.go\\"}}" >"$o"
timeout 250 go test -vet=off -overlay "$o" -run '^TestDemo$' %s-count=1 ./%s
'''
def mkseed(id, prop, edits, needs, breaks, demo, pkg="", race=False, imports=""):
    d = f"{ROOT}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
    for f, old, new in edits:
        p = f"{t}/r/{f}"; s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    subprocess.call(["gofmt", "-d"] + [f"{t}/r/{f}" for f, _, _ in edits if f != "json-decode.go"])
    diff = subprocess.check_output(["git", "diff"], cwd=t + "/r", text=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(t)
    orig = {f: subprocess.check_output(["git", "-C", "/repo", "show", "fbe54ba:" + f], text=True).splitlines() for f, _, _ in edits}
    olds = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    if not any(l.strip() and l in o for l in olds for o in orig.values()): print(id, "WARNING: changes no original line", olds)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(SH % (pkg and pkg + "/", "-race " if race else "", pkg))
    name = "main" if pkg else "amino"
    if not demo.lstrip().startswith("package"):
        imps = "".join(f'\t"{i}"\n' for i in ["testing"] + (imports.split() if imports else []))
        demo = f"package {name}\n\nimport (\n{imps})\n\n" + demo.strip() + "\n"
    open(d + "/demo.go", "w").write(demo)
    subprocess.call(["gofmt", "-w", d + "/demo.go"])
