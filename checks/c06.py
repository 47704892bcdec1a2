"""C06: for every processor kind, type of message (including names and types not seen before) and
position in the flush, the history 'samples, a flush during which a message is processed after its
k-th datapoint, a second flush' is summarised over symbolic names and values; no path may raise, and
the first flush must report every metric that existed before it.  For arbitrary states, a loop with
a yield in its body must not go over a live container that processing a message changes in size."""
from checks.interleave import *
from checks.flushes import *

ASSUMPTIONS = ["plugins are the bundled ones", "going over a dict, set or deque whose size changed raises, as documented"]
TECHNIQUE = "static analysis: abstract interpretation of interleaved histories at every yield of the flush; live-iteration analysis of flush loops against the effects of process()"


def run(ctx, rep):
    jobs = []
    for kind in ("compliant", "configurable"):
        for t in ("c", "ms", "m", "sli", "g", "pd"):
            jobs.append((kind, [(t, 0)], (t, 1)))
        for t in ("c", "ms", "g"):
            jobs.append((kind, [(t, 0), (t, 1)], (t, 2)))
        jobs.append((kind, [("c", 0), ("ms", 1)], ("g", 2)))
        jobs.append((kind, [("g", 0), ("c", 1)], ("ms", 2)))
        jobs.append((kind, [("g", 0)], ("m", 1)))
        jobs.append((kind, [("ms", 0)], ("sli", 1)))
        jobs.append((kind, [("sli", 0)], ("c", 1)))
        jobs.append((kind, [], ("c", 0)))
    jobs.append(("logging", [("c", 0)], ("m", 1)))
    jobs.append(("logging", [("g", 0)], ("g", 1)))
    js = [("live", k) for k in KINDS] + [("inter",) + j for j in spread(jobs)]
    ctx.pmap(lambda j, rp: job(ctx, rp, j), js)


def job(ctx, rep, j):
    if j[0] == "live":
        live(ctx, rep, j[1])
    else:
        run_case(ctx, rep, j[1], j[2], j[3], wanted, ks=j[4])


def wanted(rep, H, r, p, a, subj):
    F, ts, res, internal = a
    # the flush before which the message has not arrived: what existed must be there
    late = res[1][0]
    if res[1][0][2]:
        return
    ds = [d for d in late[0] if d[0] in ("missing", "undefined") or d[0] == "?"]
    if any(d[0] == "?" for d in ds):
        return
    ds = [d for d in ds if not (d[2].startswith(internal + "receive."))]
    if ds:
        rep.violation("all-reported", "%s:%s:%s" % (H.kind, H.inject[0], ds[0][1]), "%s: in the first flush %s" % (H.tell(p), ds[0][2]), ds[0][3], path_text(r))
    else:
        rep.ok("all-reported")


def live(ctx, rep, kind):
    """Loops with a yield over a container of the processor itself, not a copy."""
    P = ProcessorSummary(ctx, kind)
    grows = set()
    for r in P.paths:
        if r.kind != "ok":
            continue
        for f in effects(r):
            if f.fresh or not f.label:
                continue
            lab = f.label
            if f.what == "item" and f.old is not None and f.old[0] == "absent":
                grows.add(lab)
            elif f.what in ("append", "add", "extend", "appendleft", "insert", "update"):
                grows.add(lab)
    S = FlushSummary(ctx, kind)
    for r in S.paths:
        if r.kind == "undecided":
            rep.undecided("snapshot", kind, r.value)
            continue
        for e, before in all_loops(r.events):
            lp = e.extra
            if not lp.live or not yields([e]):
                continue
            t, k = lp.live
            if t in before:
                rep.ok("snapshot", "%s: a container taken out before" % kind)
                continue
            if t[0] != "obj" or t[1] not in r.state.heap:
                continue
            o = r.state.heap.peek(t[1])
            lab = (o.extra or {}).get("label") or getattr(o, "label", None)
            if lab and lab in grows:
                rep.violation("snapshot", "%s:%s" % (kind, lab), "the flush goes over %s itself and yields in between, and processing a message makes it grow" % lab,
                              e.where, path_text(r))
            else:
                rep.ok("snapshot", "%s: loop over %s" % (kind, show(lp.over)[:60] if isinstance(lp.over, tuple) else "?"))


def all_loops(events, before=None):
    """(loop, objects that were replaced as an attribute or entry before it)."""
    before = set() if before is None else before
    for e in events:
        if e.kind == "loop":
            yield e, set(before)
            for p in e.extra.paths:
                for x in all_loops(p.events, set(before)):
                    yield x
        elif e.kind == "write" and e.what in ("attr", "item") and e.args[2] != e.args[3]:
            before.add(e.args[2])
