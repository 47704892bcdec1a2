"""C02: (1) for each processor kind and every abstract path of process(message) in an arbitrary
reachable state, the net effects on the aggregates at messages taking the path are compared with the
formula of the message's type: only entries of its own normalised name change, types do not share
containers, and the per-type count grows by one; a well-formed message always has an effect.
(2) Histories of one and two samples with symbolic names and values, followed by flushes, are
summarised and what they report is compared with a reference, so that the formulas hold whatever the
aggregates are called inside."""
from checks.model import *

ASSUMPTIONS = ["plugins are the bundled ones", "numbers are exact (rounding is left out)"]
TECHNIQUE = "static analysis: path summaries of process() over arbitrary states (abstract interpretation), effect comparison by random interpretation"


def run(ctx, rep):
    jobs = [("summary", k) for k in KINDS]
    for kind in ("compliant", "configurable"):
        hs = histories(kind, ctx.thorough)
        jobs += [("history", kind, h) for h in hs]
    jobs += [("history", "logging", [(t, 0), (t, 0), "flush"]) for t in ("c", "g", "m", "ms")]
    # the long ones first
    ctx.pmap(lambda j, rp: job(ctx, rp, j), jobs)


def job(ctx, rep, j):
    if j[0] == "history":
        judge(ctx, rep, j[1], j[2], "cfg", ("value", "missing", "extra", "undefined", "duplicate"), "reported-as-aggregated",
              want=lambda x: x[0] != "internal" or x[1] == "receive.count")
    else:
        summary(ctx, rep, j[1])


def root_attr(label):
    """The attribute of the processor a label belongs to."""
    if not label or not label.startswith("self."):
        return None
    s = label[5:]
    for i, c in enumerate(s):
        if c in ".[(~":
            return s[:i]
    return s


def summary(ctx, rep, kind):
    S = ProcessorSummary(ctx, kind)
    corpus = [m for m in message_corpus(ctx.seed, ctx.thorough) if spec_classify(kind, m)[0] == "good"]
    M = Matcher(ctx.seed, corpus)
    used = {}
    rep.facts["well_formed_messages_%s" % kind] = len(corpus)
    for i, r in enumerate(S.paths):
        if r.kind == "undecided":
            rep.undecided("own-aggregate", "%s.process" % kind, r.value)
            continue
        if r.kind == "raise":
            continue
        msgs, opaque, other = M.messages(r)
        if not msgs:
            continue
        rng = random.Random(ctx.seed)
        picks = msgs if len(msgs) <= 4 else [msgs[0], msgs[-1]] + rng.sample(msgs, 2)
        eff = effects(r)
        logged, more = bad_line_logs(r)
        for m in picks:
            one(ctx, rep, kind, r, m, eff, logged, used)
    check_disjoint(rep, kind, used)


def ev(m, t, seed=1):
    p = Point(random.Random(seed), {MESSAGE: m})
    v = p.ev(t)
    if p.unknown_ops:
        raise Unknown(str(p.unknown_ops))
    return v


def one(ctx, rep, kind, r, m, eff, logged, used):
    c = spec_classify(kind, m)
    status, v, t, key, fields, rate = c
    subj = "%s:%s" % (kind, t)
    heap = r.state.heap
    agg = []
    counted = None
    for f in eff:
        if f.fresh:
            continue
        attr = root_attr(f.label)
        k = f.key if f.what == "item" else None
        mk = None
        if f.target[0] == "obj" and f.target[1] in heap:
            mk = (heap.peek(f.target[1]).extra or {}).get("matkey")
        name = mk if mk is not None else (k if attr is not None and f.label == "self." + attr else None)
        # statistics of what was received are kept per type
        if attr and f.what == "item" and f.label == "self." + attr:
            try:
                kv = ev(m, f.key)
            except (NoValue, Unknown):
                kv = None
            if kv == t and kv != key:
                if f.new is not None and (f.old is None or f.old[0] == "absent" or True):
                    d = delta(r, m, f)
                    if d == 1:
                        counted = (counted or 0) + 1
                    continue
        agg.append((attr, f, name))
    if logged:
        # refused: only a name owned by another plugin may be
        if t in BUILTIN_TYPES:
            rep.violation("well-formed-accepted", subj, "the well-formed message %r is logged as a bad line" % m, None, path_text(r))
        return
    if not agg:
        rep.violation("well-formed-has-effect", subj, "the well-formed message %r changes no aggregate" % m, None, path_text(r))
        return
    if counted != 1:
        rep.undecided("received-count", subj, "no per-type count seen to grow by one for %r" % m) if counted is None else \
            rep.violation("received-count", subj, "the received count of %s grows by %s for %r" % (t, counted, m), None, path_text(r))
    else:
        rep.ok("received-count", subj)
    for attr, f, name in agg:
        if attr:
            used.setdefault(attr, {}).setdefault(t, (f, r))
        if name is None:
            continue
        try:
            kv = ev(m, name)
        except (NoValue, Unknown) as e:
            rep.undecided("own-name", subj, e)
            continue
        if kv != key:
            rep.violation("own-name", "%s:%s" % (subj, attr), "the message %r changes the entry %r of %s instead of %r" % (m, kv, attr, key),
                          f.where, path_text(r))
        else:
            rep.ok("own-name", "%s %s[%s]" % (subj, attr, key))
    formula(ctx, rep, kind, r, m, c, agg, subj)


def delta(r, m, f):
    old = f.old
    if old is None:
        return None
    if old[0] == "absent":
        old = const(0)
    for k in (1,):
        res, _ = compare(f.new, ("add", old, const(k)), [], pools=lambda rng: {MESSAGE: m})
        if res == "equal":
            return k
    return "other"


def formula(ctx, rep, kind, r, m, c, agg, subj):
    """The direct number changes of counters, gauges and meters."""
    status, v, t, key, fields, rate = c
    if t not in ("c", "g", "m"):
        return
    cand = []
    for attr, f, name in agg:
        if f.new is None or ty(f.new) not in ("int", "float", "num"):
            continue
        cand.append(f)
    if not cand:
        return
    val = const(v)
    good, bad, unk = 0, None, None
    for f in cand:
        old = f.old if f.old is not None and f.old[0] != "absent" else const(0)
        if t == "c" and kind == "compliant":
            want = ("add", old, ("div", val, const(float(rate))))
        elif t == "m":
            want = ("add", old, val)
        else:
            want = val
        res, why = compare(f.new, want, r.facts.log, ctx.seed, pools=lambda rng: {MESSAGE: m})
        if res == "equal":
            good += 1
        elif res == "differ":
            bad = bad or (f, why)
        else:
            unk = why
    if good:
        rep.ok("formula", "%s %r" % (subj, m))
    elif bad and unk is None:
        rep.violation("formula", subj, "for %r, %s becomes %s: %s" % (m, bad[0].label, show(bad[0].new)[:200], bad[1]), bad[0].where, path_text(r))
    else:
        rep.undecided("formula", subj, unk)


def check_disjoint(rep, kind, used):
    """No attribute of the processor is changed by samples of two types, plugins aside."""
    for attr, ts in used.items():
        groups = {"plugin" if t not in BUILTIN_TYPES else t for t in ts}
        if len(groups) > 1:
            a, b = sorted(groups)[:2]
            f, r = list(ts.values())[0]
            if f.label == "self." + attr and f.what == "attr":
                continue
            rep.violation("own-type", "%s:%s" % (kind, attr), "samples of types %s change the same aggregate %s" % (sorted(ts), attr), f.where, path_text(r))
        else:
            rep.ok("own-type", "%s %s %s" % (kind, attr, sorted(ts)))
