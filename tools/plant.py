"""Confirms planted bugs in scratch copies and files them under seeded/.

usage: plant.py FILE.py [ID...]   FILE.py holds BUGS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo)]
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
cd /repo 2>/dev/null
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def run(cmd, cwd, **env):
    e = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             NPY_DISABLE_CPU_FEATURES="AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL", PYTHONPATH=cwd, **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)


def one(b):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    d = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(d, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        demo = os.path.join(d, "demo.py")
        open(demo, "w").write(b["demo"])
        py = "/opt/venv/bin/python"
        r = run([py, "-W", "ignore", demo], repo)
        if r.returncode:
            return "demo fails on the unchanged tree: " + (r.stderr or r.stdout)[-400:]
        for f, old, new in b["edits"]:
            p = os.path.join(repo, "netomaton", f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%d matches of %r in %s" % (s.count(old), old[:60], f)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        r = run([py, "-W", "ignore", demo], repo)
        if r.returncode == 0:
            return "demo passes with the change"
        msg = (r.stderr or r.stdout).strip().splitlines()[-1:]
        xml = os.path.join(d, "j.xml")
        r = run([py, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "-W", "ignore", "--tb=line", "--timeout=300", "-o", "junit_family=xunit2",
                 "--junitxml=" + xml, "tests"], repo)
        out = os.path.join(d, "o.json")
        import xml.etree.ElementTree as ET
        bad = []
        for tc in ET.parse(xml).getroot().iter("testcase"):
            if any(ch.tag in ("failure", "error") for ch in tc):
                bad.append(tc.get("classname") + "::" + tc.get("name"))
        allowed = [x for x in bad if not any(x.split("::")[-1] == s.split("::")[-1].split(" ")[-1] or s.endswith(x.split("::")[-1]) for s in base)]
        bad = [x for x in bad if x not in allowed]
        if bad:
            return "tests fail: %s" % bad[:4]
        t = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        open(os.path.join(t, "patch.diff"), "w").write(diff)
        open(os.path.join(t, "demo.py"), "w").write(b["demo"])
        open(os.path.join(t, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(t, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(t, "meta.json"), "w"), indent=1)
        return "kept (%s)" % (msg[0][:100] if msg else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    else:
        bugs = [b for b in bugs if not os.path.isdir(os.path.join(VERIF, "seeded", b["id"]))]
    with ThreadPoolExecutor(2) as ex:
        for b, r in zip(bugs, ex.map(one, bugs)):
            print(b["id"], b["property"], r, flush=True)


main()
