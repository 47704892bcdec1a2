"""C04: histories of one to three samples of every type and pair of types, on one or two symbolic
names, before one or two flushes, for every processor kind and prefix configuration, are summarised;
at points of every path taken the triples a flush yields are compared with the paths, the number
and the timestamp of a reference.  For arbitrary states, each loop of the flush over an aggregate
must go over all of it."""
from checks.model import *
from checks.flushes import *

ASSUMPTIONS = ["plugins are the bundled ones", "the clock does not go backwards within one flush"]
TECHNIQUE = "static analysis: abstract interpretation of histories and of flush() over arbitrary states; yielded terms evaluated and compared with reference paths"

WANTED = ("triple", "timestamp", "missing", "extra", "duplicate", "undefined")


def run(ctx, rep):
    jobs = [("generic", k) for k in KINDS] + [("custom", k) for k in KINDS]
    for kind, prefixes in (("compliant", ["cfg"]), ("configurable", ["cfg", "none", "both"])):
        for h in histories(kind, ctx.thorough):
            for pre in prefixes:
                if pre != "cfg" and not ctx.thorough and len({s[0] for s in h}) > 2:
                    continue
                jobs.append(("history", kind, h, pre))
    jobs += [("history", "logging", [(t, 0), (t, 1), "flush"], pre) for t in ("c", "g", "m", "ms", "sli") for pre in ("cfg", "none")]
    ctx.pmap(lambda j, rp: job(ctx, rp, j), jobs)


def job(ctx, rep, j):
    if j[0] == "custom":
        judge_custom(ctx, rep, j[1], "reported")
        return
    if j[0] == "history":
        judge(ctx, rep, j[1], j[2], j[3], WANTED, "reported")
        return
    S = FlushSummary(ctx, j[1])
    for r in S.paths:
        if r.kind == "undecided":
            rep.undecided("all-reported", j[1], r.value)
        elif r.kind == "ok":
            coverage(rep, "all-reported", j[1], r)
