"""C20: counter reports are interpreted over all histories of up to four (thorough: five) readings, each failing or
giving any subset of two counters with symbolic values, in a fresh or in the same dictionary and with the
report's result changed by its user; each report is compared with the difference of readings."""
import itertools
from checks.service import *

ASSUMPTIONS = ["counters are numbers"]
TECHNIQUE = "static analysis: abstract interpretation of the counter report over bounded histories of symbolic readings; result terms compared with differences"
KEYS = ["cpu.user", "io"]


def V(r, i):
    return sym("reading%d_%d" % (r, i), "int")


def scenario(ctx, history, shared, spoil):
    def sc(I):
        count = [0]
        same = I.new_dict()

        def function(I, a, kw, node):
            r = count[0]
            count[0] += 1
            I.event("call", ("x", "cfg.function"), a, kw, node=node, ret=NONE)
            if history[r] is None:
                raise PyRaise("IOError", node, "the reading fails", where=I.where(node))
            d = same if shared else I.new_dict()
            if shared:
                I.call(I.getattr(d, "clear", None), [], {}, None)
            for i in history[r]:
                I.setitem(d, const(KEYS[i]), V(r, i), None)
            return d
        I.cfg.ext["cfg.function"] = function
        f = ctx.need_function(I, "txstatsd.process", "report_counters")
        g = I.call(f, [("x", "cfg.function"), sym("cfg:arg", "str")], {"prefix": sym("cfg:prefix", "str")}, None)
        for r in range(len(history)):
            try:
                v = I.call(g, [], {}, None)
            except PyRaise as e:
                I.event("mark", "raised%d" % r, [const(str(e))])
                continue
            I.event("mark", "result%d" % r, [I.snap(v)])
            if spoil and v[0] == "obj":
                I.setitem(v, const(KEYS[0]), const(-12345), None)
                I.setitem(v, const("other"), const(1), None)
    return sc


def run(ctx, rep):
    opts = [None, (), (0,), (1,), (0, 1)]
    n = 5 if ctx.thorough else 4
    hs = [h for k in range(1, n + 1) for h in itertools.product(opts, repeat=k) if k < n or (0, 1) in h and h[-1]]
    jobs = [(h, False, False) for h in hs] + [(h, s, t) for h in hs if len(h) <= 3 for s, t in ((True, False), (False, True))]
    ctx.pmap(lambda js, rp: [one(ctx, rp, *j) for j in js], [jobs[i:i + 25] for i in range(0, len(jobs), 25)])


def told_of(h):
    return ", ".join("failure" if x is None else "{%s}" % ", ".join(KEYS[i] for i in x) for x in h)


def one(ctx, rep, history, shared, spoil):
    I = stubbed(ctx)
    told = "readings %s%s%s" % (told_of(history), " in one dictionary" if shared else "", " with the results changed by their user" if spoil else "")
    for r in ctx.explore(I, scenario(ctx, history, shared, spoil)):
        if r.kind == "undecided":
            rep.undecided("difference", told, r.value)
            continue
        if r.kind == "raise":
            rep.violation("difference", "raise", "%s: %s" % (told, r.value), getattr(r.value, "where", None), path_text(r))
            return
        fl = calls(r.events, "x(cfg.function)", "cfg.function")
        if fl and ([show(x) for x in fl[0].args] != ["cfg:arg"] or [(k, show(x)) for k, x in fl[0].kw.items()] != [("prefix", "cfg:prefix")]):
            rep.violation("difference", "arguments", "the source is read with the arguments %s %s" % ([show(x) for x in fl[0].args], fl[0].kw), fl[0].where, path_text(r))
            return
        last = None
        for k, h in enumerate(history):
            raised = [e for e in r.events if e.kind == "mark" and e.what == "raised%d" % k]
            res = [e for e in r.events if e.kind == "mark" and e.what == "result%d" % k]
            at = "%s, report %d" % (told, k + 1)
            if h is None:
                if res:
                    v = res[0].args[0]
                    if not (v[0] in ("dict",) and len(v) == 1):
                        rep.violation("difference", "failing", "%s gives %s although its reading fails" % (at, show(v)), None, path_text(r))
                        return
                continue
            if raised:
                rep.violation("difference", "raise", "%s raises %s" % (at, raised[0].args[0][1]), None, path_text(r))
                return
            if not res:
                rep.undecided("difference", told, "no result")
                return
            v = res[0].args[0]
            got = as_dict(v)
            if got is None:
                rep.undecided("difference", told, show(v))
                return
            want = {KEYS[i]: ("sub", V(k, i), V(last, i)) for i in h if last is not None and i in history[last]}
            if set(got) != set(want):
                rep.violation("difference", "keys", "%s gives %s instead of %s" % (at, sorted(got), sorted(want)), None, path_text(r))
                return
            for key in want:
                c, why = compare(got[key], want[key], r.facts.log)
                if c == "differ":
                    rep.violation("difference", "value", "%s gives %s = %s instead of %s" % (at, key, show(got[key]), show(want[key])), None, path_text(r))
                    return
                if c != "equal":
                    rep.undecided("difference", told, why)
                    return
            last = k
        rep.ok("difference", told)


def as_dict(v):
    if v[0] != "dict":
        return None
    out = {}
    for x in v[1:]:
        if not (isinstance(x, tuple) and len(x) in (2, 3)):
            return None
        k, val = x[-2:]
        if not is_const(k):
            return None
        out[k[1]] = val
    return out
