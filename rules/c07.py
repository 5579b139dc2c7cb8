"""C07: past activities are a window that slides over the preceding timesteps."""
from .evo import *

TECHNIQUE = ("interprocedural value-flow and effect analysis of evolve over an abstract network with uninterpreted callbacks: the past "
             "activities in every context are closed forms over the past conditions and the recorded activities, compared with the last k "
             "of them")



def check(C):
    for order in ORDERS:
        for k in (1, 2, 3) if order == ORDERS[0] or C.thorough else (2,):
            C.group("%s, %d past conditions" % (order, k), one, C, dict(order=order, past=k, T=8 if C.thorough else 5))
    C.group("past conditions in lists", one, C, dict(past=2, pasttype="list"))
    C.group("past conditions in arrays", one, C, dict(past=2, pasttype="ndarray"))
    C.group("with a topology rule", one, C, dict(past=2, topo="topo", pert=True))
    C.group("nodes added and removed", one, C, dict(rule="requesting", requests=True, past=2, T=3))
    C.group("inputs", one, C, dict(past=2, inputs=3))
    C.group("no past", one, C, dict())
    C.group("empty past", one, C, dict(past=0))
    C.group("past_activity_of", accessor, C)


def one(C, kw):
    s = Scenario(C, **kw)
    s.fields("window of %s past activities" % kw.get("past", "no"), "rule.past_activities")


def accessor(C):
    eng = C.engine()
    ctx = P(eng, "ctx", "class:NodeContext")
    env = {"ctx": ctx, "label": P(eng, "label"), "k": P(eng, "k", "int")}
    asg = [{ctx: ident.Stub("context", past_activities=[{"a": 1, 3: 2}, {"a": 3, 3: 4}, {"a": 5, 3: 6}]), env["label"]: l, env["k"]: k}
           for l in ("a", 3) for k in (-1, -2, 0)]
    C.equal("past_activity_of: by index", eng.eval_in("ctx.past_activity_of(label, k)", dict(env)),
            eng.eval_in("ctx.past_activities[k][label]", dict(env)), asg)
    C.equal("past_activity_of: the timestep before the last one by default", eng.eval_in("ctx.past_activity_of(label)", dict(env)),
            eng.eval_in("ctx.past_activities[-1][label]", dict(env)), asg)
