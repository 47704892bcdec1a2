"""C08: histories of samples and flushes over symbolic names and values are summarised; at points of
every path the internal datapoints are compared with a reference: number of groups per kind and in
total, received per type; each duration is the difference of two clock readings that enclose the
datapoints of its kind, or the processing of its messages; the published durations are their totals.
For arbitrary states the total is the sum of the five counts, compared as terms over the loops."""
from checks.model import *
from checks.flushes import *

ASSUMPTIONS = ["plugins are the bundled ones", "the clock does not go backwards within one flush"]
TECHNIQUE = "static analysis: abstract interpretation of histories and of flush() over arbitrary states; clock readings tracked as terms"


def run(ctx, rep):
    jobs = [("generic", k) for k in ("compliant", "configurable")]
    for kind in ("compliant", "configurable"):
        jobs += [("history", kind, h, "cfg") for h in histories(kind, ctx.thorough)]
    jobs += [("history", "configurable", [(t, 0), "flush", "flush"], pre) for t in ("c", "sli") for pre in ("none", "both")]
    jobs += [("history", "logging", [("c", 0), ("g", 1), "flush"], pre) for pre in ("cfg", "none")]
    jobs += [("history", k, ["flush", ("c", 0), "flush"], "cfg") for k in ("compliant", "configurable")]
    ctx.pmap(lambda j, rp: job(ctx, rp, j), jobs)


def internal(x):
    return x[0] == "internal"


def job(ctx, rep, j):
    if j[0] == "generic":
        return generic(ctx, rep, j[1])
    _, kind, steps, prefix = j
    H = judge(ctx, rep, kind, steps, prefix, ("value", "missing", "undefined"), "internal-counts", want=internal)
    subj = "%s:%s" % (kind, ",".join("flush" if s == "flush" else s[0] for s in steps))
    for hit in H.points(8 if not ctx.thorough else 40, ctx.seed):
        if hit is None or hit[0].kind != "ok":
            continue
        r, p = hit
        received = []

        def visit(step, F, exp, groups, rec, ts, ref):
            durations(rep, kind, H, r, p, step, F, exp, rec, ref)
        replay(H, r, p, visit)


def durations(rep, kind, H, r, p, step, F, exp, rec, ref):
    if F.opaque or F.bad or any(len(x) > 4 for x in exp.values()):
        return          # a path that two metrics share does not tell which of them was flushed
    told = "after %s (step %d)" % (H.tell(p), step)
    spans = {}
    order = []
    got = {}
    for path, v, t, i, e in F.items:
        if isinstance(path, tuple):
            return
        got[path] = (v, e)
        x = exp.get(path)
        if x is None:
            continue
        g = x[0]
        a, b = spans.get(g, (i, i))
        spans[g] = (min(a, i), max(b, i))
    total = Fraction(0)
    for k in FLUSH_KINDS:
        path = ref.internal + "flush.%s.duration" % k
        if path not in got:
            return
        v, e = got[path]
        if not isinstance(v, Fraction):
            return
        total += v
        cand = []
        lo, hi = spans.get(k, (None, None))
        for a, (ia, ta) in enumerate(F.times):
            for ib, tb in F.times[a + 1:]:
                if lo is not None and not (ia < lo and hi < ib):
                    continue
                # nothing of another kind in between
                if any(g != k and s[0] < ib and ia < s[1] for g, s in spans.items() if g != "internal"):
                    continue
                cand.append((tb - ta) * 1000)
        if any(num_eq(v, c) for c in cand):
            rep.ok("flush-duration", "%s %s" % (kind, path))
        else:
            rep.violation("flush-duration", "%s:%s" % (kind, k), "%s: %s is %s, not 1000 times the time between two clock readings around the %s metrics" % (
                told, path, rinterp.fmtnum(v), k), e.where, path_text(r))
    if F.last and F.last[0] is not None and not num_eq(F.last[0], total):
        rep.violation("published-durations", "%s:flush" % kind, "%s: the published flush duration is %s, the reported ones add up to %s" % (
            told, rinterp.fmtnum(F.last[0]), rinterp.fmtnum(total)), None, path_text(r))
    elif F.last and F.last[0] is not None:
        rep.ok("published-durations", "%s flush" % kind)
    rtotal = Fraction(0)
    for t, x in rec.items():
        path = ref.internal + "receive.%s.duration" % t
        if path not in got or not isinstance(got[path][0], Fraction):
            return
        v, e = got[path]
        rtotal += v
        want = sum((ts[-1] - ts[0]) * 1000 for ts in x if ts)
        if not any(len(ts) < 2 for ts in x):
            if num_eq(v, want):
                rep.ok("receive-duration", "%s %s" % (kind, path))
            else:
                rep.violation("receive-duration", "%s:%s" % (kind, t), "%s: %s is %s, but processing the messages took %s ms" % (
                    told, path, rinterp.fmtnum(v), rinterp.fmtnum(want)), e.where, path_text(r))
    if F.last and F.last[1] is not None and not num_eq(F.last[1], rtotal):
        rep.violation("published-durations", "%s:process" % kind, "%s: the published process duration is %s, the reported ones add up to %s" % (
            told, rinterp.fmtnum(F.last[1]), rinterp.fmtnum(rtotal)), None, path_text(r))
    elif F.last and F.last[1] is not None:
        rep.ok("published-durations", "%s process" % kind)


def generic(ctx, rep, kind):
    S = FlushSummary(ctx, kind)
    pre = sym("cfg:message_prefix", "str")
    for r in S.paths:
        if r.kind == "undecided":
            rep.undecided("total-is-sum", kind, r.value)
            continue
        if r.kind != "ok":
            continue
        vals = {}
        for e in r.events:
            if e.kind == "yield" and e.args[0][0] == "tuple":
                t = e.args[0][1]
                p = Point(random.Random(1), {pre: "pre"})
                try:
                    path = p.ev(t)
                except (NoValue, Unknown):
                    continue
                if isinstance(path, str):
                    vals[path.rsplit("statsd.", 1)[-1]] = (e.args[0][2], e)
        want = None
        parts = [vals.get("flush.%s.count" % k) for k in FLUSH_KINDS]
        if "numStats" not in vals or any(x is None for x in parts):
            rep.undecided("total-is-sum", kind, "internal datapoints not found outside loops: %s" % sorted(vals))
            continue
        for x in parts:
            want = x[0] if want is None else ("add", want, x[0])
        res, why = compare(vals["numStats"][0], want, r.facts.log, ctx.seed)
        rep.decide("total-is-sum", kind, {"equal": True, "differ": False}.get(res),
                   "numStats is %s, not the sum of the five counts: %s" % (show(vals["numStats"][0])[:200], why), vals["numStats"][1].where, path_text(r))
