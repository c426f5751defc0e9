import sys, time, itertools
from . import obj, x86, scen
from .core import *
def explore(abi, img, ops, opts):
    """all paths of one program -> (fails, stats)"""
    todo = [[]]; fails = []; S = dict(paths=0, queries=0, time=0.0, checks=0, steps=0, reach=False, trail=0)
    while todo:
        d = todo.pop()
        r = scen.Run(abi, img, d, ops, opts); r.phase = "start"
        try: r.go()
        except Derailed as x: r.cx.fails.append((("C01", "C02", "C03", "C04"), "%s: %s" % (r.phase, x), {}, None))
        S["paths"] += 1; S["queries"] += r.cx.queries; S["time"] += r.cx.time; S["checks"] += r.cx.checks; S["steps"] += r.cx.steps; S["reach"] |= bool(getattr(r, "reach", False))
        if not r.cx.fails and not S.get("model") and r.cx.sat(*r.cx.ors):
            m = r.cx.model(*r.cx.ors); S["model"] = {str(d): m[d].as_long() for d in m.decls() if z3.is_bv_value(m[d]) and str(d)[:2] in ("A.", "F.", "to")}
        fails += r.cx.fails; todo += r.cx.alts; S["trail"] = max(S["trail"], len(r.trail))
    return fails, S
