"""C30: (1) for an arbitrary state of the compliant processor, the loop of the flush over the timers is
summarised; its yielded terms are evaluated, on the path taken, for lists of 0 to 150 arbitrary
samples and compared with the definition.  (2) Histories of one to four timer samples with symbolic
values, before one or two flushes, are compared with a reference in the same way."""
from checks.model import *
from checks.flushes import *

ASSUMPTIONS = ["numbers are exact (rounding is left out)", "N is at least 50: fewer samples are removed than kept"]
TECHNIQUE = "static analysis: loop summary of the timer flush over an arbitrary list of samples; terms compared with the definition by interpretation over random lists"


def run(ctx, rep):
    jobs = [("generic",)]
    for n in (1, 2, 3, 4, 5):
        jobs.append(("history", [("ms", 0)] * n + ["flush"]))
    jobs += [("history", h) for h in ([("ms", 0), "flush", "flush"], [("ms", 0), ("ms", 0), "flush", ("ms", 0), "flush"],
                                      [("ms", 0), ("ms", 1), "flush"], [("ms", 0), ("c", 0), "flush"],
                                      [("ms", 0), ("ms", 1), "flush", ("ms", 1), ("ms", 1), "flush"])]
    ctx.pmap(lambda j, rp: job(ctx, rp, j), jobs)


def job(ctx, rep, j):
    if j[0] == "history":
        judge(ctx, rep, "compliant", j[1], "cfg", ("value", "missing", "extra", "undefined", "duplicate"), "timer-statistics",
              want=lambda x: x[0] == "timer", n=40)
    else:
        generic(ctx, rep)


def definition(vs, percent):
    vs = sorted(vs)
    n = len(vs)
    keep = vs
    if n > 1:
        keep = vs[:n - int(rinterp.pyround((100 - percent) / 100 * n))]
    return {"lower": vs[0], "upper": vs[-1], "count": Fraction(n), "upper_%s" % rinterp.fmtnum(percent): keep[-1],
            "mean": sum(keep) / len(keep)}


def generic(ctx, rep):
    S = FlushSummary(ctx, "compliant", plugins=False)
    rng = random.Random(ctx.seed)
    found = 0
    for r in S.paths:
        if r.kind == "undecided":
            rep.undecided("timer-loop", "flush", r.value)
            continue
        if r.kind != "ok":
            continue
        for e in outer_loops(r.events):
            texts = [show(y.args[0]) for y in yields([e])]
            if not any("stats.timers." in t for t in texts):
                continue
            found += 1
            loop(ctx, rep, r, e, rng)
        stray = [y for y in yields([x for x in r.events if x.kind != "loop"]) if "stats.timers." in show(y.args[0])]
        if stray:
            rep.undecided("timer-loop", "flush", "a timer is reported outside the loop over the timers")
    if not found:
        rep.undecided("timer-loop", "flush", "no loop over the timers found")


def is_list_leaf(x):
    return ty(x) in ("list", "unk") and x[0] in ("dget", "dgetq", "elem", "attr", "itemt")


def loop(ctx, rep, r, e, rng):
    # the list of samples of the timer and its name
    paths = e.extra.paths
    lists, names = set(), set()
    for p in paths:
        for a, v in p.facts:
            for x in walk(a):
                if x and x[0] == "len":
                    lists |= {y for y in rinterp.free(x)}
    for y in yields([e]):
        for x in rinterp.free(y.args[0][1]):
            if x != PERCENT and ty(x) in ("str", "unk"):
                names.add(x)
    lists = {x for x in lists if x not in (PERCENT, INTERVAL) and x not in names and ty(x) not in ("int", "float", "num", "str", "bool")}
    if len(lists) != 1 or len(names) != 1:
        rep.undecided("timer-loop", "flush", "the samples of the loop are not one list: %s %s" % ([show(x)[:60] for x in lists], [show(x)[:60] for x in names]))
        return
    lst, name = lists.pop(), names.pop()
    outer = {(a, v) for a, v in r.facts.log}
    sizes = list(range(0, 25)) + [30, 40, 49, 50, 51, 99, 100, 101, 128, 150]
    if ctx.thorough:
        sizes = list(range(0, 200)) * 3 + [500, 1000]
    for n in sizes:
        for percent in (90, 95, 50, 99, 75, 80, 60):
            vs = [Fraction(rng.choice([rng.randint(-50, 3000), rng.randint(0, 4)]) * 1, rng.choice([1, 1, 2, 4])) for _ in range(n)]
            hit = None
            opaque = None
            for p in paths:
                pt = Point(random.Random(n), {lst: tuple(vs), name: "T", PERCENT: Fraction(percent), INTERVAL: Fraction(10000)})
                ok = True
                for a, v in p.facts:
                    if (a, v) in outer:
                        continue
                    if not contains(a, lst):
                        continue
                    try:
                        pt.unknown_ops = set()
                        if bool(pt.ev(a)) != v:
                            ok = False
                            break
                        if pt.unknown_ops:
                            opaque = str(pt.unknown_ops)
                            ok = None
                    except NoValue:
                        ok = False
                        break
                    except Unknown as ex:
                        opaque = str(ex)
                        ok = None
                if ok:
                    hit = (p, pt)
                    break
            text = "%d samples, percent=%d" % (n, percent)
            if hit is None:
                rep.undecided("timer-loop", "flush", "no path known for %s: %s" % (text, opaque))
                continue
            p, pt = hit
            if p.kind == "raise":
                rep.violation("timer-loop", "raise", "with %s: %s" % (text, p.value if hasattr(p, "value") else "an exception"), e.where, path_text(r))
                continue
            got, bad = {}, False
            for y in yields(p.events):
                try:
                    pt.unknown_ops = set()
                    path, v = pt.ev(y.args[0][1]), pt.ev(y.args[0][2])
                    if pt.unknown_ops:
                        raise Unknown(str(pt.unknown_ops))
                except NoValue as ex:
                    rep.violation("timer-loop", "undefined", "with %s, %s has no value" % (text, show(y.args[0])[:200]), y.where, path_text(r))
                    bad = True
                    continue
                except Unknown as ex:
                    rep.undecided("timer-loop", "flush", "%s" % ex)
                    bad = True
                    continue
                got[path.rsplit("stats.timers.T.", 1)[-1]] = v
            if bad:
                continue
            if n == 0:
                rep.decide("timer-loop", "empty", not got, "a timer without samples reports %s" % sorted(got), e.where, path_text(r))
                continue
            want = definition(vs, Fraction(percent))
            wrong = [k for k in set(want) | set(got) if k not in got or k not in want or not num_eq(got[k], want[k])]
            if wrong:
                k = sorted(wrong)[0]
                rep.violation("timer-loop", k.split("_")[0], "with %s %s: %s is %s, not %s" % (
                    text, [float(x) for x in vs[:8]], k, rinterp.fmtnum(got[k]) if k in got else "not reported",
                    rinterp.fmtnum(want[k]) if k in want else "to be reported"), e.where, path_text(r))
            else:
                rep.ok("timer-loop", text)
