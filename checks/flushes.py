"""Generic facts about flush() over arbitrary states: its loops over the aggregates."""
import re

from checks.common import *


class FlushSummary(object):
    """Every abstract path of a flush of a processor in an arbitrary reachable state."""

    def __init__(self, ctx, kind, prefix="cfg", plugins=True):
        self.ctx, self.kind = ctx, kind
        self.I = I = ctx.interp()
        self.make = make_processor(ctx, kind, prefix, plugins)
        self.L = learner(ctx, I, self.make)
        self.paths = ctx.explore(I, self.scenario)

    def scenario(self, I):
        o = self.make(I)
        label_root(I, o)
        self.L.steady(I, o)
        start_mark(I)
        flush_op(I, o)
        return o


def yields(events):
    return [e for e in all_events(events) if e.kind == "yield"]


def base_view(t):
    """(container term or label, wrapped): what a loop goes over, without order or copying."""
    wrap = []
    while isinstance(t, tuple) and t:
        if t[0] in ("sorted", "reversed", "list", "tuple_", "lset", "iter"):
            t = t[1]
        elif t[0] == "slice":
            wrap.append(t)
            t = t[1]
        else:
            break
    return t, wrap


def outer_loops(events):
    """Loops of the flush itself that have a yield in them: (loop event, its paths)."""
    for e in events:
        if e.kind == "loop" and yields([e]):
            yield e


def coverage(rep, rule, kind, r):
    """A loop over an aggregate goes over all of it."""
    seen = {}
    for e in outer_loops(r.events):
        lp = e.extra
        base, wraps = base_view(lp.over) if isinstance(lp.over, tuple) else (None, [])
        if not base or not (base[0] in ("keys", "values", "items", "ikeys") or "self." in show(base)):
            continue
        name = show(base)[:80]
        name = re.sub(r"\d+, ", "", name)
        name = re.sub(r"~\d+", "", name)
        seen.setdefault(name, []).append((e, wraps))
    for name, es in seen.items():
        for e, wraps in es:
            bad = [w for w in wraps if all(isinstance(x, tuple) and is_const(x) for x in w[2:4] if x is not None) and
                   any(isinstance(x, tuple) and x[1] is not None and x[1] != 0 for x in w[2:4])]
            if bad and len(es) == 1:
                rep.violation(rule, "%s:part of %s" % (kind, name), "a flush goes over %s only, not over all metrics of the kind" % show(bad[0])[:200],
                              e.where, path_text(r))
                continue
            stop = [p for p in e.extra.paths if p.kind in ("break", "return")]
            if stop:
                p = stop[0]
                rep.violation(rule, "%s:stops in %s" % (kind, name), "a flush stops going over %s when %s: the metrics after it are not reported" % (
                    name, [("" if v else "not ") + show(a)[:150] for a, v in p.facts][-3:]), e.where, path_text(r))
                continue
            rep.ok(rule, "%s goes over %s" % (kind, name))
