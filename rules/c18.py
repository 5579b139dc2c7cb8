"""C18: the built-in rules and models do not modify the arguments, contexts and configurations they are given."""
from .origins import *

TECHNIQUE = ("interprocedural, flow-sensitive origin (points-to) analysis of the whole package: every statement that modifies a value is "
             "traced back, through locals, containers, copies of known depth, instance attributes, closures and calls, to the "
             "parameters whose objects it may be a part of; a parameter of a function open to callers must have none")

ELSEWHERE = ("evolution", "state", "utils", "hexplot", "turtle", "analysis", "vis")


def exempt(f, p):
    """documented: the table-walk-through method perturbs the table it is given"""
    return f.qual.split(".")[-1] == "table_walk_through" and p == f.params[0]


def check(C):
    pkg = package(C.repo)
    n = 0
    for m in sorted(pkg.modules.values(), key=lambda m: m.name):
        if any(part in ELSEWHERE for part in m.name.split(".")[1:]):
            continue
        for f, private in sorted(entry_points(pkg, m), key=lambda x: x[0].qual):
            if f.parent is not None:
                # a closure: what its caller passes is the caller's; a rule's context is the library's, and the user's
                if not any(is_context(p) for p in handed_in(f)):
                    continue
            C.group(f.qual, check_function, C, pkg, f, exempt)
            n += 1
    # a model's objects are given by __init__'s caller and used in other methods: those events are on the parameters of __init__
    C.extra["functions_with_events"] = len({e.fn.qual for e in pkg.events.values()})
    C.extra["modifying_statements"] = sorted("%s:%d" % e.site[:2] for e in pkg.events.values())[:400]
    C.extra["functions_checked"] = n


def is_context(p):
    return p in ("ctx", "context", "c")
