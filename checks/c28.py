"""C28: histories of samples and flushes are summarised for the logging and the configurable processor;
at the same assignments both must yield the same datapoints in the same order, and the logging one must
log each message once before it changes anything and each datapoint once. Every path of process() of
both, in an arbitrary reachable state, must treat every class of messages alike."""
from checks.model import *

ASSUMPTIONS = ["plugins are the bundled ones", "the logger's info returns", "the bodies of durations and rates depend on the clock and are compared with a reference, not with each other"]
TECHNIQUE = "static analysis: path summaries of both processors (abstract interpretation), compared with each other and with the log events at common assignments"


def is_info(e):
    return e.kind == "call" and callname(e) == "cfg:logger.info"


def run(ctx, rep):
    hs = [["flush"]] + histories("configurable", ctx.thorough)
    hs += [[("c", 0), ("ms", 1), ("g", 2), "flush"], [("sli", 1), ("g", 1), ("c", 0), "flush", ("c", 1), "flush"],
           [("g", 0), ("g", 1), ("g", 2), "flush"], [("m", 0), ("c", 1), ("ms", 0), "flush", "flush"]]
    jobs = [("messages", None, None), ("custom", None, None)] + [("history", h, pr) for h in hs for pr in ("cfg",)] + [("history", hs[0], "none"), ("history", hs[-1], "both")]
    ctx.pmap(lambda j, rp: messages(ctx, rp) if j[0] == "messages" else judge_custom(ctx, rp, "logging", "as-configurable") if j[0] == "custom" else history(ctx, rp, j[1], j[2]), jobs)


def history(ctx, rep, steps, prefix):
    H = judge(ctx, rep, "logging", steps, prefix, ("value", "missing", "extra", "undefined", "duplicate", "triple", "timestamp"), "as-configurable")
    G = History(ctx, "configurable", steps, prefix)
    subj = ",".join("flush" if s == "flush" else s[0] for s in steps)
    n = 30 if ctx.thorough else 10
    # readings of the clock differ in number, so that it moves at every one or never
    for clock in (1, 0):
        for a, b in zip(H.points(n, ctx.seed, clock), G.points(n, ctx.seed, clock)):
            if a is None or b is None:
                continue
            logs(rep, H, subj, *a)
            same(rep, H, subj, a, b)


def told_step(H, p, n):
    return "%s (step %d)" % (H.tell(p), n)


def same(rep, H, subj, a, b):
    """The same datapoints in the same order."""
    (r, p), (r2, p2) = a, b
    if r.kind == "raise":
        return                  # judged
    sa, sb = stages(r), stages(r2)
    for n, s in enumerate(H.steps):
        if s != "flush" or n not in sa or n not in sb:
            continue
        fa, fb = Flushed(sa[n], p), Flushed(sb[n], p2)
        if fa.opaque or fb.opaque:
            rep.undecided("same-datapoints", subj, "datapoints of a loop")
            continue
        pa, pb = [x[0] for x in fa.items], [x[0] for x in fb.items]
        if any(isinstance(x, tuple) for x in pa + pb):
            rep.undecided("same-datapoints", subj, "a path without an interpretation")
            continue
        if pa != pb:
            i = next(i for i in range(max(len(pa), len(pb))) if pa[i:i + 1] != pb[i:i + 1])
            rep.violation("same-datapoints", "order", "after %s: datapoint %d is %s, the configurable processor's is %s" % (
                told_step(H, p, n), i + 1, pa[i] if i < len(pa) else "missing", pb[i] if i < len(pb) else "missing"),
                fa.items[min(i, len(fa.items) - 1)][4].where if fa.items else None, path_text(r))
        else:
            rep.ok("same-datapoints", subj)


def logs(rep, H, subj, r, p):
    if r.kind == "raise":
        return
    for n, evs in stages(r).items():
        infos = []
        inloop = False
        for e in evs:
            if e.kind == "loop" and any(is_info(x) for x in all_events([e])):
                inloop = True
            if is_info(e):
                infos.append(e)
        if inloop:
            rep.undecided("logged", subj, "logs in a loop")
            continue
        s = H.steps[n]
        if s != "flush":
            mine = [e for e in infos if mentions(e, H.message(n))]
            if len(mine) != 1 or len(infos) != 1:
                rep.violation("message-logged-once", s[0], "in %s the message is logged %d times%s" % (
                    told_step(H, p, n), len(mine), ", and %d other lines" % (len(infos) - len(mine)) if len(infos) != len(mine) else ""),
                    infos[0].where if infos else None, path_text(r))
                continue
            i = evs.index(mine[0])
            early = [e for e in evs[:i] if e.kind == "write" and not (e.extra or {}).get("init") and not fresh(e, r)]
            if early:
                rep.violation("message-logged-first", s[0], "in %s the message is logged after %s" % (told_step(H, p, n), early[0]), mine[0].where, path_text(r))
            else:
                rep.ok("message-logged-once", s[0])
            continue
        F = Flushed(evs, p)
        if F.opaque:
            continue
        if len(infos) != len(F.items):
            texts = []
            rep.violation("datapoint-logged-once", "count", "in %s, %d datapoints are flushed and %d logged" % (told_step(H, p, n), len(F.items), len(infos)),
                          infos[0].where if infos else None, path_text(r))
            continue
        bad = None
        try:
            lines = [value(p, render(e)) for e in infos]
            for it, line in zip(F.items, lines):
                if isinstance(it[0], str) and it[0] not in str(line):
                    bad = (it, line)
                    break
        except (NoValue, Unknown):
            bad = None
        if bad:
            rep.violation("datapoint-logged-once", "text", "in %s, the datapoint %s is logged as %r" % (told_step(H, p, n), bad[0][0], bad[1]), infos[0].where, path_text(r))
        else:
            rep.ok("datapoint-logged-once", subj, n=max(1, len(infos)))


def render(e):
    return ("cat",) + tuple(("str", a) for a in e.args) if len(e.args) > 1 else e.args[0]


def fresh(e, r):
    t = (e.extra or {}).get("target")
    lab = (e.extra or {}).get("label")
    return not lab


# ------------------------------------------------------------------ every message
def outcome(r):
    if r.kind == "raise":
        return "raises %s" % excname(r.value.exc)
    n, more = bad_line_logs(r)
    labels = set()
    for f in effects(r):
        if f.fresh or not f.label or not f.label.startswith("self."):
            continue
        labels.add(f.label.split("~")[0].split("[")[0].split("(")[0])
    return (n, more, tuple(sorted(labels)))


def messages(ctx, rep):
    corpus = message_corpus(ctx.seed, ctx.thorough)
    M = Matcher(ctx.seed, corpus)
    by = {}
    S = {}
    for kind in ("configurable", "logging"):
        S[kind] = ProcessorSummary(ctx, kind)
        d = by[kind] = {}
        for r in S[kind].paths:
            if r.kind == "undecided":
                rep.undecided("same-treatment", kind, r.value)
                continue
            msgs, opaque, other = M.messages(r)
            o = outcome(r)
            for m in msgs:
                d.setdefault(m, {}).setdefault(o, r)
    for m in corpus:
        a, b = by["configurable"].get(m), by["logging"].get(m)
        if not a or not b:
            rep.undecided("same-treatment", "paths", "no path for %r" % m)
            continue
        only = [o for o in b if o not in a]
        gone = [o for o in a if o not in b]
        if only or gone:
            o = (only or gone)[0]
            r = (b if only else a)[o]
            rep.violation("same-treatment", spec_classify("configurable", m)[0], "the message %r is treated in dump mode as %s, otherwise as %s" % (
                m, sorted(map(str, b)), sorted(map(str, a))), None, path_text(r))
        else:
            rep.ok("same-treatment", "%r" % m)
    for r in S["logging"].paths:
        if r.kind != "ok":
            continue
        msgs, opaque, other = M.messages(r)
        good = [m for m in msgs if spec_classify("logging", m)[0] == "good"]
        infos = [e for e in all_events(r.events) if is_info(e)]
        if good and len(infos) != 1:
            rep.violation("message-logged-once", "any", "the message %r is logged %d times" % (good[0], len(infos)), infos[0].where if infos else None, path_text(r))
        elif msgs and len(infos) > 1:
            rep.violation("message-logged-once", "bad", "the message %r is logged %d times" % (msgs[0], len(infos)), infos[0].where, path_text(r))
        elif good:
            if not mentions(infos[0], MESSAGE):
                rep.violation("message-logged-once", "text", "the message %r is logged as %s" % (good[0], infos[0]), infos[0].where, path_text(r))
            else:
                rep.ok("message-logged-once", "%r" % good[0])
