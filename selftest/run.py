#!/usr/bin/env python3
"""
Tests of the checks themselves, on scratch copies of the package: edits that break a property must be reported by that
property's check, edits that keep the behaviour must leave every check quiet.

run.py [name-substring...]   (cases are in cases_*.py next to this file)
"""
import importlib.util
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


warnings.simplefilter('ignore')


def load():
    cases = []
    for p in sorted(glob.glob(os.path.join(HERE, "cases_*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(p)[:-3], p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        cases += m.CASES
    return cases


def claimed():
    return sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(VERIF, "rules", "c[0-9]*.py")))


def relevant(files):
    """the checks that look into one of the files (by what they said last time)"""
    out = []
    for pid in claimed():
        p = os.path.join(VERIF, "evidence", pid + ".json")
        seen = set()
        if os.path.exists(p):
            with open(p) as f:
                seen = {x.split(":")[0].split("netomaton/")[-1] for x in json.load(f)["coverage"].get("functions_analysed", [])}
        if not seen or pid in ("C18", "C31", "C32", "C34") or seen & set(files):
            out.append(pid)
    return out


def run_case(c):
    d = tempfile.mkdtemp(prefix="sa_")
    try:
        shutil.copytree("/repo/netomaton", os.path.join(d, "netomaton"), ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in c["edits"]:
            p = os.path.join(d, "netomaton", f)
            s = open(p).read()
            if s.count(old) < 1:
                return c, "BAD CASE: text not found in %s: %r" % (f, old[:60])
            s = s.replace(old, new, 1)
            compile(s, p, "exec")
            open(p, "w").write(s)
        props = c["props"] if c["kind"] == "bug" else (c.get("props") or relevant([e[0] for e in c["edits"]]))
        out = []
        caught = []
        for pid in props:
            r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), pid], capture_output=True, text=True,
                               env=dict(os.environ, SA_REPO=d, SA_NOWRITE="1"))
            if r.returncode == 1:
                caught.append(pid)
                out.append(r.stdout)
            elif r.returncode != 0:
                return c, "ERROR %s: %s" % (pid, (r.stdout + r.stderr)[-600:])
        if c["kind"] == "bug":
            return c, None if caught else "MISSED"
        return c, None if not caught else "FALSE ALARM %s\n%s" % (caught, "\n".join(out)[:1500])
    except SyntaxError as e:
        return c, "BAD CASE: %s" % e
    finally:
        shutil.rmtree(d)


def main():
    cases = load()
    sel = sys.argv[1:]
    if sel:
        cases = [c for c in cases if any(x in c["name"] or x in (c.get("props") or []) for x in sel)]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for c, r in ex.map(run_case, cases):
            if r:
                bad += 1
                print("%-5s %s: %s" % (c["kind"], c["name"], r))
    print("%d cases (%d bugs, %d same), %d unexpected" % (len(cases), sum(1 for c in cases if c["kind"] == "bug"),
                                                         sum(1 for c in cases if c["kind"] == "same"), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
