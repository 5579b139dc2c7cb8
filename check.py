#!/usr/bin/env python3
"""
check.py <property> [--thorough]

Decides one property of properties.jsonl from the source of the netomaton package in /repo (never importing or running
it), writes evidence/<property>.json, and exits 0 (nothing violates it) or 1 (with a VIOLATION line per finding that
known_findings.txt does not list).  Exit 2: a public entry point that the property is about does not exist any more.
"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from rules import common  # noqa: E402
from sa.engine import AnalysisError  # noqa: E402


def known_findings(pid):
    """{construct: text} of the findings listed for the property"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" | ")
                out[key.strip()] = text.strip()
    return out


def main(argv):
    args = [a for a in argv if not a.startswith("-")]
    if len(args) != 1:
        print(__doc__)
        return 2
    pid = args[0]
    thorough = "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough"
    repo = os.environ.get("SA_REPO", "/repo")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        mod = importlib.import_module("rules." + pid.lower())
    except ModuleNotFoundError:
        print("no check for %s" % pid)
        return 2
    C = common.Check(pid, repo, thorough, seed, getattr(mod, "TECHNIQUE", ""))
    try:
        C.run(mod.check)
    except AnalysisError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    known = known_findings(pid)
    rc = 0
    rep = os.path.join(HERE, "evidence")
    if os.environ.get("SA_NOWRITE"):
        import tempfile
        rep = tempfile.mkdtemp(prefix="sa_ev_")
    os.makedirs(rep, exist_ok=True)
    listed, fresh = [], []
    for o in C.obligations:
        if o["verdict"] == "violated":
            (listed if o["construct"] in known else fresh).append(o)
    for o in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, o["construct"], known[o["construct"]]))
    path = os.path.join(rep, pid + ".report.txt")
    if fresh:
        rc = 1
        with open(path, "w", encoding="utf-8") as f:
            for o in fresh:
                f.write("%s\n  rule: %s\n  where: %s\n  %s\n\n" % (o["name"], mod.__doc__.strip().split("\n")[0], o["site"], o["detail"]))
        for o in fresh:
            print("%s: %s [%s]\n    %s" % (o["site"], o["name"], o["construct"], o["detail"].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (pid, path))
    elif os.path.exists(path):
        os.remove(path)
    ev = C.evidence(time.time() - t0, len(fresh))
    with open(os.path.join(rep, pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if os.environ.get("SA_NOWRITE"):
        import shutil
        shutil.rmtree(rep)
    n = len(C.obligations)
    print("%s: %d obligations, %d proved, %d agree, %d undecided, %d violated (%d known) in %.1f s" % (
        pid, n, C.count("proved"), C.count("agree"), C.count("undecided"), C.count("violated"), len(listed),
        time.time() - t0))
    if "-v" in argv or "--verbose" in argv:
        for o in C.obligations:
            print("  %-9s %s  %s" % (o["verdict"], o["name"], o["detail"] if o["verdict"] != "proved" else ""))
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
