#!/usr/bin/env python3
"""seedtest.py [-notests] [-all] [-props C01,C02] ID...: tries seeded changes in scratch copies: the demonstration, the
test suite and the checks. Development tool; nothing registered uses it."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod")
args = sys.argv[1:]
notests = "-notests" in args; allp = "-all" in args
props = None
if "-props" in args:
    i = args.index("-props"); props = args[i+1].split(","); del args[i:i+2]
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
base = json.load(open("/opt/vp/BASELINE.json"))
def sh(cmd, cwd, to=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -1, "timeout"
def one(i):
    d = f"{ROOT}/seeded/{i}"; out = [i]
    meta = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp(prefix="seed.")
    try:
        r = t + "/repo"
        sh(f"git clone -q /repo {r}", t)
        rc, o = sh(f"sh {d}/demo.sh", r)
        if rc != 0: out.append("DEMO FAILS ON BASE\n" + o[-1500:])
        rc, o = sh(f"git apply {d}/patch.diff", r)
        if rc != 0: return i + " DOES NOT APPLY " + o
        rc, o = sh("go build ./...", r)
        if rc != 0: return i + " DOES NOT BUILD " + o
        rc, o = sh(f"sh {d}/demo.sh", r)
        out.append("demo ok" if rc != 0 else "DEMO PASSES WITH THE CHANGE")
        if "-v" in args: out.append(o[-800:])
        if not notests:
            rc, o = sh("go test -json -vet=off -tags extensive_tests -count=1 -timeout 10m ./...", r)
            bad = sorted({(m["Package"].split("/")[-1], m["Test"]) for m in (json.loads(l) for l in o.splitlines() if l.startswith("{")) if m.get("Action") == "fail" and "Test" in m})
            out.append("tests ok" if rc == 0 else f"TESTS FAIL {bad[:5]}")
        sh(f"cp -a {ROOT}/harness {t}/harness && sed -i 's#=> /repo#=> {r}#' {t}/harness/go.mod", t)
        ps = props or ([meta["property"]] if not allp else [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]])
        for p in ps:
            rc, o = sh(f"VERIF_REPO={r} {ROOT}/bin/engine -harness {t}/harness -out {t} {p} quick", t)
            v = [l for l in o.splitlines() if "VIOLATION" in l or "violat" in l]
            out.append(f"{p}:" + ("CAUGHT" if rc == 1 else "missed" if rc == 0 else f"rc={rc} " + o[-600:]))
            if "-v" in args: out.append(o[-1500:])
    finally:
        shutil.rmtree(t)
    return " | ".join(out)
with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for r in ex.map(one, ids): print(r, flush=True)
