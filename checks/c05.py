"""C05: for every processor kind, type of sample and position in the flush, the history 'samples, a
flush during which one more message is processed after its k-th datapoint, a second flush' is
summarised over symbolic names and values.  What the two flushes report must be what a reference
reports with the message counted in the first, or in the second: as a whole, so that no sample is
lost or counted twice.  The same for the receive counts and the sum of the durations.  Flush
summaries over arbitrary states add that no aggregate is replaced or reset after a yield by a value
that discards what may have arrived meanwhile."""
from checks.interleave import *

ASSUMPTIONS = ["plugins are the bundled ones", "numbers are exact (rounding is left out)", "one message per suspension"]
TECHNIQUE = "static analysis: abstract interpretation of interleaved histories at every yield of the flush; comparison with both serial orders"


def run(ctx, rep):
    jobs = []
    for kind in ("compliant", "configurable"):
        for t in ("c", "ms", "m", "sli", "g"):
            jobs.append((kind, [(t, 0)], (t, 0)))
            jobs.append((kind, [(t, 0)], (t, 1)))
            jobs.append((kind, [(t, 0), (t, 1)], (t, 0)))
            jobs.append((kind, [(t, 0), (t, 1)], (t, 1)))
        jobs.append((kind, [], ("c", 0)))
        jobs.append((kind, [("c", 0), ("ms", 1)], ("ms", 1)))
        jobs.append((kind, [("sli", 0), ("m", 1)], ("sli", 0)))
        jobs.append((kind, [("ms", 0), ("g", 1)], ("c", 1)))
        jobs.append((kind, [("pd", 0)], ("c", 1)))
    jobs.append(("logging", [("c", 0)], ("m", 1)))
    if ctx.thorough:
        for kind in ("compliant", "configurable"):
            for t in ("c", "ms", "m", "sli"):
                for u in ("c", "ms", "m", "sli"):
                    if t != u:
                        jobs.append((kind, [(t, 0), (u, 1)], (u, 1)))
                jobs.append((kind, [(t, 0), (t, 1)], (t, 2)))
    jobs = spread(jobs)
    ctx.pmap(lambda j, rp: run_case(ctx, rp, j[0], j[1], j[2], wanted, ks=j[3]), jobs)


CATS = ("value", "missing", "undefined", "duplicate", "extra")


def wanted(rep, H, r, p, a, subj):
    F, ts, res, internal = a
    told = H.tell(p)
    both = []
    for out in res:
        metric, receive, amb = [], [], False
        for k, (ds, exp, ambiguous) in enumerate(out):
            amb |= ambiguous
            for cat, what, text, where in ds:
                if cat == "?":
                    return
                if cat not in CATS:
                    continue
                if text.startswith(internal):
                    if (".count " in text.split(" is ")[0] + " " and "receive." in text):
                        receive.append((k, cat, what, text, where))
                    continue
                metric.append((k, cat, what, text, where))
        both.append((metric, receive, amb))
    for i, name in ((0, "sample"), (1, "receive")):
        if i == 0 and any(b[2] for b in both):
            continue
        if all(b[i] for b in both):
            d = min((b[i] for b in both), key=len)[0]
            rep.violation("exactly-once-%s" % name, "%s:%s:%s" % (H.kind, H.inject[0], d[2]), "%s: in flush %d %s, whichever flush the message is counted in" % (
                told, d[0] + 1, d[3]), d[4], path_text(r))
        else:
            rep.ok("exactly-once-%s" % name)
    # durations of all messages are reported once
    tot = {}
    for f in F:
        for path, v, t, i, e in f.items:
            if isinstance(path, str) and path.startswith(internal + "receive.") and path.endswith(".duration"):
                if not isinstance(v, Fraction):
                    return
                tot[path[len(internal) + 8:-9]] = tot.get(path[len(internal) + 8:-9], 0) + v
    want = {}
    st = stages(r)
    for i, s in list(enumerate(H.pre)) + [(H.inum, H.inject)]:
        if i == H.inum:
            tv = [p.ev(x) for x in split_times(st[len(H.steps) - 2])[1]]
        else:
            tv = [p.ev(e.args[0]) for e in all_events(st[i]) if e.kind == "time" and e.args]
        if len(tv) < 2:
            return
        want[s[0]] = want.get(s[0], 0) + (tv[-1] - tv[0]) * 1000
    for t, v in want.items():
        if not num_eq(tot.get(t, Fraction(0)), v):
            rep.violation("exactly-once-duration", "%s:%s" % (H.kind, t), "%s: the receive durations of %s add up to %s ms over both flushes, not %s" % (
                told, t, rinterp.fmtnum(tot.get(t, Fraction(0))), rinterp.fmtnum(v)), None, path_text(r))
            return
    rep.ok("exactly-once-duration")
