"""C27: the averaged measures are means over the nodes of the measure of each node's own sequence of states."""
from .common import *

TECHNIQUE = ("interprocedural value-flow analysis of the averaging functions to closed sums over nodes and timesteps, "
             "compared with the normal form of their definition; acceptance conditions compared as decision diagrams")

SPEC = """
import numpy as np
from netomaton.analysis import shannon_entropy, mutual_information

def rows(trajectory):
    return [[s.activities[n] for n in sorted(s.activities)] for s in trajectory]

def entropy(acts):
    values = []
    for i in range(0, len(acts[0])):
        values.append(shannon_entropy([str(x) for x in [y[i] for y in acts]]))
    return np.mean(values)

def mutual(acts, d):
    values = []
    for i in range(0, len(acts[0])):
        seq = [str(x) for x in [y[i] for y in acts]]
        values.append(mutual_information(seq[:-d], seq[d:]))
    return np.mean(values)

def distance_ok(acts, d):
    return not (0 < d < len(acts))
"""


def tables(C):
    out = [[[0, 1, 0]], [[0, 1], [1, 1], [0, 0]], [[0, 1, 10], [1, 10, 1], [10, 1, 1], [1, 10, 0], [0, 0, 1]],
           [[5], [5], [5]], [[-1, 2], [2, -1], [11, 1], [1, 11]]]
    # symbols of different lengths, whose concatenations coincide
    out.append([[1, 11], [11, 1], [1, 1], [1, 1]])
    for _ in range(6 if not C.thorough else 40):
        w, h = C.rng.randint(1, 4), C.rng.randint(1, 7)
        out.append([[C.rng.choice([0, 1, 2, 10, 12, -1]) for _ in range(w)] for _ in range(h)])
    return out


def check(C):
    C.group("entropy of lists", lists, C, "average_node_entropy", "entropy", False)
    C.group("mutual information of lists", lists, C, "average_mutual_information", "mutual", True)
    C.group("temporal distance", distance, C)
    C.group("trajectory rows", rows, C)
    C.group("entropy of a trajectory", trajectories, C, "average_node_entropy", "entropy", False)
    C.group("mutual information of a trajectory", trajectories, C, "average_mutual_information", "mutual", True)


def not_state(eng, t):
    """in a list of lists the entries are lists"""
    if t.op in ("item", "nth") and t.args[0] is mk("param", "acts"):
        return "list"


def lists(C, name, spec, dist):
    eng = C.engine()
    eng.typehooks.append(not_state)
    f = eng.lookup_export("netomaton." + name)
    a = P(eng, "acts", "list")
    d = P(eng, "d", "int")
    args = [a, d] if dist else [a]
    got = call(eng, f, args)
    want = call(eng, spec_env(eng, SPEC)[spec], args)
    asg = [{a: t, d: k} for t in tables(C) for k in (range(1, len(t)) if dist else [1])]
    C.equal("%s(list of lists): mean over the nodes" % name, got.den, want.den, asg, site_of(eng, f), when=NOT(got.raises))
    if dist:
        # the default distance is the next timestep
        got1 = call(eng, f, [a])
        want1 = call(eng, spec_env(eng, SPEC)[spec], [a, ONE])
        C.equal("%s: distance 1 by default" % name, got1.den, want1.den, [x for x in asg if x[d] == 1], site_of(eng, f), when=NOT(got.raises))


def distance(C):
    eng = C.engine()
    eng.typehooks.append(not_state)
    f = eng.lookup_export("netomaton.average_mutual_information")
    a, d = P(eng, "acts", "list"), P(eng, "d", "int")
    got = call(eng, f, [a, d])
    want = call(eng, spec_env(eng, SPEC)["distance_ok"], [a, d])
    asg = [{a: t, d: k} for t in tables(C) for k in range(-2, len(t) + 3)]
    C.equal("average_mutual_information: accepts distances from 1 to less than the number of timesteps",
            simplify(got.raises, truthy(a)), want.term, asg, site_of(eng, f))


def state_of(traj):
    def h(eng, t):
        if t.op in ("item", "nth") and t.args[0] is traj:
            return "class:State"
        if t.op == "attr" and t.args[1] == "activities" and t.args[0].op in ("item", "nth") and t.args[0].args[0] is traj:
            return "dict"
    return h


def trajectory_assignments(C, traj):
    for t in tables(C):
        n = len(t[0])
        orders = [list(range(n)), list(range(n))[::-1]]
        for o in orders:
            st = []
            for r in t:
                ac = {i * 3: r[i] for i in o}
                st.append(Stub("State", _cls="State", activities=ac, _activities=ac, _compression=False, network=None, _network=None))
            yield t, {traj: st}


def with_activities(eng):
    """the activities of a State are read through its property (C10 and C14 decide what that gives)"""
    key = next(k for k, c in eng.classes.items() if c.name == "State")
    eng.abstract_props.add((key, "activities"))
    eng.abstract_props.add((key, "network"))


def rows(C):
    eng = C.engine()
    traj = P(eng, "acts", "list")
    eng.typehooks.append(state_of(traj))
    with_activities(eng)
    f = eng.lookup_export("netomaton.get_activities_over_time_as_list")
    got = call(eng, f, [traj])
    want = call(eng, spec_env(eng, SPEC)["rows"], [traj])
    C.equal("get_activities_over_time_as_list: one row per state, nodes in label order", got.den, want.den,
            [a for t, a in trajectory_assignments(C, traj)], site_of(eng, f))


def trajectories(C, name, spec, dist):
    eng = C.engine()
    traj = P(eng, "acts", "list")
    d = P(eng, "d", "int")
    eng.typehooks.append(state_of(traj))
    with_activities(eng)
    f = eng.lookup_export("netomaton." + name)
    got = call(eng, f, [traj, d] if dist else [traj])
    env = spec_env(eng, SPEC)
    r = call(eng, env["rows"], [traj])
    want = call(eng, env[spec], [r.value, d] if dist else [r.value])
    asg = []
    for t, a in trajectory_assignments(C, traj):
        for k in (range(1, len(t)) if dist else [1]):
            asg.append(dict(a, **{}))
            asg[-1][d] = k
    C.equal("%s(trajectory): mean over the nodes, in label order" % name, got.den, want.den, asg, site_of(eng, f), when=NOT(got.raises))
