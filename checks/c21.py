"""C21: (1) for every path of process(message) in an arbitrary reachable state, each entry added to a kept
container must be keyed by the message's own name or type, and each list may grow only with a name not seen
before, under a bound on its length, or in a compliant timer; (2) what is kept after each of several samples
of one name, and after each of several flushes, is measured on the abstract heap and compared; (3) the
reservoirs, the client's queue and the client API are driven past their size and measured."""
from checks.model import *

ASSUMPTIONS = ["plugins are the bundled ones", "the containers are those reachable from the object and from module and class attributes"]
TECHNIQUE = "static analysis: growth effects of path summaries, and container sizes on the abstract heap after symbolic histories"


# ------------------------------------------------------------------ how much is held
def refs(t, out):
    """Objects a term mentions."""
    if not isinstance(t, tuple) or not t:
        return
    if t[0] == "obj" and len(t) == 2:
        out.add(t[1])
        return
    if t[0] in ("keys", "values", "items", "ikeys") and len(t) > 1 and isinstance(t[1], int):
        out.add(t[1])
    for x in t:
        if isinstance(x, tuple):
            refs(x, out)


def reachable(I, roots):
    heap = I.st.heap
    todo, seen = set(roots), set()
    while todo:
        i = todo.pop()
        if i in seen or i not in heap:
            continue
        seen.add(i)
        o = heap.peek(i)
        out = set()
        for v in o.attrs.values():
            refs(v, out)
            if isinstance(v, tuple) and v and v[0] in ("fn", "bm", "partial"):
                closure(I, v, out)
        if o.content is not None:
            refs(o.content, out)
        for k, v in o.entries.items():
            refs(k, out)
            refs(v, out)
        refs(tuple(o.pieces), out)
        todo |= out - seen
    return seen


def closure(I, v, out):
    for x in v[1:]:
        if isinstance(x, tuple):
            closure(I, x, out)
    if v[0] == "fn":
        f = I.fns.get(v[1])
        fr = I.st.frames.get(getattr(f, "frame", None)) if f is not None else None
        if fr:
            for y in fr.values():
                if isinstance(y, tuple):
                    refs(y, out)


def size(I, o):
    """{container: (label, kind, count or term)} of everything kept by an object and the modules."""
    heap = I.st.heap
    roots = {o[1]} | {i for i in heap if i <= I.base_ctr}
    out = {}
    for i in reachable(I, roots):
        x = heap.peek(i)
        n = None
        if x.kind in ("list", "deque", "set") and x.content is not None:
            n = T.canon(I.clen(x.content))
        elif x.kind == "dict":
            n = const(len([k for k in x.entries if k[0] != "lk"])) if not x.open and not x.pieces else ("len", ("keys", i, x.ver, "d"))
        elif x.kind == "inst":
            for a, v in x.attrs.items():
                if isinstance(v, tuple) and v and v[0] in ("cat", "str") and ty(v) == "str":
                    out[(i, a)] = (x.label, x.cls, const(len(flatten(v))))
            continue
        if n is not None:
            out[i] = (x.label, x.kind, n)
    return out


def flatten(t):
    if t[0] == "cat":
        return [y for x in t[1:] for y in flatten(x)]
    return [t]


def show_size(m):
    tot, rest = 0, []
    for k, (l, c, n) in m.items():
        if is_const(n):
            tot += n[1]
        else:
            rest.append(show(n)[:60])
    return tot, rest[:3]


def measures(r):
    return [e.extra for e in r.events if e.kind == "mark" and e.what == "size"]


def measure(I, o):
    """What is kept, and which containers the program has asked for their length."""
    asked, I.len_asked = I.len_asked, None
    I.event("mark", "size", extra=size(I, o))
    I.event("mark", "asked", extra=frozenset(asked or ()))
    I.len_asked = asked


def asked(r):
    return set().union(*[e.extra for e in r.events if e.kind == "mark" and e.what == "asked"])



def grown(ms, a, b):
    """Containers that grew from measure a to b: {container: (label, kind, by)}; None where unknown."""
    out = {}
    for k in set(ms[a]) | set(ms[b]):
        x, y = ms[a].get(k), ms[b].get(k)
        l, kind, n1 = (y or x)
        n0 = x[2] if x else const(0)
        n1 = y[2] if y else const(0)
        if n0 == n1:
            continue
        if is_const(n0) and is_const(n1):
            out[k] = (l, kind, n1[1] - n0[1])
        else:
            c = compare(n1, ("add", n0, const(0)))[0]
            if c == "equal":
                continue
            d = T.canon(("sub", n1, n0))
            out[k] = (l, kind, d[1] if is_const(d) else None)
    return out


def total(d):
    return None if any(v[2] is None for v in d.values()) else sum(v[2] for v in d.values())


def tell(d):
    return ", ".join("%s %s by %s" % (v[1], v[0] or k, v[2]) for k, v in sorted(d.items(), key=str) if v[2] is None or v[2] > 0)[:300]


def samples(ctx, kind, t, steps, third=False):
    """Samples (a number: its value) of one name and flushes ('f'); what is kept is measured after each."""
    make = make_processor(ctx, kind)

    def sc(I):
        I.len_asked = set()
        o = make(I)
        label_root(I, o)
        for i, s in enumerate(steps):
            if s == "f":
                flush_op(I, o)
            else:
                v = sym("value%d" % i, "str")
                if t in BUILTIN_TYPES:
                    I.assume(("isnum", v), True)
                    I.assume(("isnan", ("float", v)), False)
                    I.assume(("isinf", ("float", v)), False)
                start = len(I.st.events)
                I.call(I.getattr(o, "process_message", None), [sym("message%d" % i, "str"), const(t), sym("name", "str"), I.new_list([v, const(t)])], {}, None)
                if any(is_log_call(e) for e in I.st.events[start:]):
                    raise Infeasible()       # not accepted: judged by the summary
            measure(I, o)
        return o
    return sc


def run(ctx, rep):
    jobs = [("summary", k) for k in ("compliant", "configurable", "logging")]
    n = 4 if ctx.thorough else 3
    for kind in ("compliant", "configurable", "logging"):
        for t in ("c", "g", "m", "ms", "sli", "pd"):
            if kind == "logging" and not ctx.thorough and t not in ("c", "ms"):
                continue
            jobs.append(("samples", kind, t, n))
            jobs.append(("flushes", kind, t, "sfsfsf" if t != "ms" else "sfssf"))
    jobs += [("reservoir", "txstatsd.stats.uniformsample", "UniformSample", k) for k in (1, 2, 3)]
    jobs += [("reservoir", "txstatsd.stats.exponentiallydecayingsample", "ExponentiallyDecayingSample", k) for k in (1, 2)]
    jobs += [("queue", k) for k in (0, 1, 3)] + [("api", c) for c in ("Metrics", "ExtendedMetrics")]
    ctx.pmap(lambda j, rp: globals()["do_" + j[0]](ctx, rp, *j[1:]), jobs)


# ------------------------------------------------------------------ growth of a message
GROW = ("append", "appendleft", "insert", "add", "extend", "push", "insort", "heappush", "setdefault", "update")
SHRINK = ("pop", "popleft", "remove", "clear", "discard", "popitem", "del", "heapreplace")


def do_summary(ctx, rep, kind):
    S = ProcessorSummary(ctx, kind)
    corpus = message_corpus(ctx.seed, ctx.thorough)
    M = Matcher(ctx.seed, corpus)
    for r in S.paths:
        if r.kind == "undecided":
            rep.undecided("growth", kind, r.value)
            continue
        msgs, opaque, other = M.messages(r)
        if not msgs:
            continue
        eff = [f for f in effects(r) if not f.fresh and f.label and f.target[0] == "obj" and f.target[1] in r.state.heap]
        new = [f for f in eff if f.what == "item" and f.old is not None and f.old[0] == "absent" and r.state.heap.peek(f.target[1]).kind == "dict"]
        lists = [f for f in eff if f.what == "l" or f.what not in ("attr", "item")]
        m = msgs[0]
        status, why, t, key = (spec_classify(kind, m) + (None,) * 4)[:4]
        name, typ = parts(m)
        unseen = False
        for f in new:
            if is_const(f.key):
                continue
            try:
                k = evaluate(m, f.key)
            except (NoValue, Unknown) as e:
                rep.undecided("keyed-by-name", "%s:%s" % (kind, f.label), e)
                continue
            if k == name:
                unseen = True
            if k not in (name, typ):
                if isinstance(k, tuple) and name in k and all(x in (name, typ) for x in k):
                    unseen = True
                    continue
                rep.violation("keyed-by-name", "%s:%s" % (kind, f.label), "the message %r adds the entry %r to %s: its number grows with what is sent, not with the names" % (m, k, f.label),
                              f.where, path_text(r))
            elif k == typ and k != name and typ not in BUILTIN_TYPES + ("sli", "pd"):
                rep.violation("keyed-by-name", "%s:%s:type" % (kind, f.label), "the message %r, whose type is unknown, adds its type to %s: what is kept grows with rejected messages" % (m, f.label),
                              f.where, path_text(r))
            else:
                rep.ok("keyed-by-name", "%s %s" % (kind, f.label))
        for f in lists:
            ops = {o.what for o in f.ops}
            if not ops & set(GROW) or ops & set(SHRINK):
                continue
            if unseen or (status == "good" and kind == "compliant" and t == "ms"):
                rep.ok("grows-with-names", "%s %s" % (kind, f.label))
                continue
            if name_absent(r, m, name):
                rep.ok("grows-with-names", "%s %s" % (kind, f.label))
                continue
            if bounded(r, f):
                rep.undecided("grows-with-names", "%s:%s" % (kind, f.label), "depends on a length or count")
                continue
            rep.violation("grows-with-names", "%s:%s" % (kind, f.label), "the message %r adds to %s although its name has been seen" % (m, f.label), f.where, path_text(r))


def parts(m):
    """(normalised name, type) of anything that looks like a message."""
    if ":" not in m:
        return None, None
    k, d = m.strip().split(":", 1)
    f = d.split("|")
    return spec_normalise(k), f[1] if len(f) > 1 else None


def evaluate(m, t):
    p = Point(random.Random(1), {MESSAGE: m})
    v = p.ev(t)
    if p.unknown_ops:
        raise Unknown(str(p.unknown_ops))
    return v


def name_absent(r, m, name):
    """The path has looked the name up and not found it."""
    for at, v in r.facts.log:
        if at[0] in ("haskey", "has", "in", "dhas", "contains") and v is False:
            for x in at[1:]:
                if isinstance(x, tuple):
                    try:
                        if evaluate(m, x) == name:
                            return True
                    except (NoValue, Unknown):
                        pass
    return False


def bounded(r, f):
    """The path depends on how many the container or its owner holds."""
    lab = f.label.rsplit(".", 1)[0]
    for at, v in r.facts.log:
        s = show(at)
        if "len(" in s and (f.label in s or str(f.target[1]) in s):
            return True
        if lab != "self" and lab in s:
            return True
    return False


# ------------------------------------------------------------------ samples and flushes
def paths(ctx, rep, rule, subj, I, sc):
    out = []
    for r in ctx.explore(I, sc):
        if r.kind == "ok":
            out.append(r)
        elif r.kind == "undecided":
            rep.undecided(rule, subj, r.value)
    return out


LONG = 14


def do_samples(ctx, rep, kind, t, n):
    subj = "%s:%s" % (kind, t)
    rs = paths(ctx, rep, "samples-add-nothing", subj, ctx.interp(), samples(ctx, kind, t, list(range(n))))
    for r in rs:
        ms = measures(r)
        last = [grown(ms, i - 1, i) for i in range(n - 2, n)]
        held = kind == "compliant" and t == "ms"
        if held and n < LONG and all((x or 0) > 1 for x in tot_of(last)):
            return do_samples(ctx, rep, kind, t, LONG)
        both = {k: last[1][k] for k in last[1] if k in last[0] and all((d[k][2] or 0) > 0 for d in last)}
        # a reservoir fills up to its size (judged by itself)
        both = {k: v for k, v in both.items() if not (kind != "compliant" and t == "ms" and inside_sample(r, k))}
        # new containers that appear with each sample
        new = [{k: v for k, v in d.items() if k not in ms[n - 3 + i] and (v[2] or 0) > 0} for i, d in enumerate(last)]
        tot = [total(d) for d in last]
        if held:
            if all(x is not None and x <= 1 for x in tot):
                rep.ok("samples-add-nothing", "%s holds its samples" % subj)
            elif None in tot:
                rep.undecided("samples-add-nothing", subj, tell(last[1]))
            else:
                rep.violation("samples-add-nothing", subj, "each sample of one name adds %s" % tell(last[1]), None, path_text(r))
        elif both or (all(new) and all((x or 0) > 0 for x in tot)):
            if n < LONG and set(last[1]) & asked(r):
                # a length is looked at: it may be bounded
                return do_samples(ctx, rep, kind, t, LONG)
            rep.violation("samples-add-nothing", subj, "samples number %d and %d of one name each add to what is kept: %s" % (n - 1, n, tell(last[1])), None, path_text(r))
        else:
            rep.ok("samples-add-nothing", subj)


def tot_of(ds):
    return [total(d) for d in ds]


def inside_sample(r, k):
    """The container belongs to an object of txstatsd.stats."""
    for i, o in dict.items(r.state.heap):
        if o.kind == "inst" and o.cls and "txstatsd.stats" in str(o.cls):
            if any(v == ("obj", k) for v in o.attrs.values()):
                return True
    return False


def do_flushes(ctx, rep, kind, t, steps):
    subj = "%s:%s" % (kind, t)
    rs = paths(ctx, rep, "flushes-add-nothing", subj, ctx.interp(), samples(ctx, kind, t, list(steps)))
    at = [i for i, s in enumerate(steps) if s == "f"]
    for r in rs:
        ms = measures(r)
        d = [grown(ms, a, b) for a, b in zip(at, at[1:])]
        tot = [total(x) for x in d]
        if None in tot:
            rep.undecided("flushes-add-nothing", subj, [tell(x) for x in d])
        elif kind == "compliant" and t == "ms":
            x = tot[-1]
            if x > 0 and len(steps) < LONG:
                return do_flushes(ctx, rep, kind, t, "sf" * LONG + "ssf")
            if x > 0:
                rep.violation("samples-released", subj, "after %s more is kept than after the flush before: %s" % (" ".join(steps), tell(d[-1])), None, path_text(r))
            else:
                rep.ok("samples-released", subj)
        elif all(x > 0 for x in tot) and len(tot) > 1:
            if len(steps) < LONG and set(d[-1]) & asked(r):
                return do_flushes(ctx, rep, kind, t, "sf" * LONG)
            rep.violation("flushes-add-nothing", subj, "each flush of one metric leaves more behind: %s" % tell(d[-1]), None, path_text(r))
        else:
            rep.ok("flushes-add-nothing", subj)


# ------------------------------------------------------------------ bounded parts
def do_reservoir(ctx, rep, mod, cls, k):
    I = ctx.interp()
    n = k + 3 if k < 3 else k + 2

    def sc(I):
        c = ctx.need_class(I, mod, cls)
        o = I.call(c, [const(k)] + ([const(0.5)] if "Decay" in cls else []), {}, None)
        for i in range(n):
            I.call(I.getattr(o, "update", None), [sym("value%d" % i, "float")], {}, None)
            measure(I, o)
            vs = I.call(I.getattr(o, "get_values", None), [], {}, None)
            I.event("mark", "held", [I.len_of(vs), I.call(I.getattr(o, "size", None), [], {}, None)])
        return o
    subj = "%s(%d)" % (cls, k)
    for r in paths(ctx, rep, "reservoir-bounded", subj, I, sc):
        ms = measures(r)
        held = [e.args for e in r.events if e.kind == "mark" and e.what == "held"]
        bad = [(i, h) for i, h in enumerate(held) if any(is_const(x) and x[1] > k for x in h)]
        last = [grown(ms, i - 1, i) for i in (n - 2, n - 1)]
        both = {j: last[1][j] for j in last[1] if j in last[0] and all((d[j][2] or 0) > 0 for d in last)}
        if bad:
            rep.violation("reservoir-bounded", subj, "after %d samples a reservoir of %d holds %s" % (bad[0][0] + 1, k, show(bad[0][1][0])), None, path_text(r))
        elif both:
            rep.violation("reservoir-bounded", subj, "every sample after the first %d adds %s" % (k, tell(both)), None, path_text(r))
        elif all(is_const(h[0]) for h in held) or all(total(x) == 0 for x in last):
            rep.ok("reservoir-bounded", subj)
        else:
            rep.undecided("reservoir-bounded", subj, "number of values unknown: %s" % [tell(x) for x in last])


def do_queue(ctx, rep, k):
    I = ctx.interp()

    def sc(I):
        c = ctx.need_class(I, "txstatsd.protocol", "DataQueue")
        o = I.call(c, [], {"limit": const(k)}, None)
        for rnd in range(2):
            for i in range(k + 2):
                I.call(I.getattr(o, "write", None), [sym("data%d" % i, "str"), sym("callback%d" % i, "obj")], {}, None)
            items = I.call(I.getattr(o, "flush", None), [], {}, None)
            I.event("mark", "held", [I.len_of(items)])
            measure(I, o)
        return o
    subj = "DataQueue(%d)" % k
    for r in paths(ctx, rep, "queue-bounded", subj, I, sc):
        ms = measures(r)
        held = [e.args[0] for e in r.events if e.kind == "mark" and e.what == "held"]
        if any(is_const(h) and h[1] > k for h in held):
            rep.violation("queue-bounded", "DataQueue", "a queue with the limit %d gives %s messages" % (k, [show(h) for h in held]), None, path_text(r))
        elif (total(grown(ms, 0, 1)) or 0) > 0:
            rep.violation("queue-bounded", "DataQueue:kept", "a queue that was emptied keeps %s" % tell(grown(ms, 0, 1)), None, path_text(r))
        elif all(is_const(h) for h in held):
            rep.ok("queue-bounded", subj)
        else:
            rep.undecided("queue-bounded", subj, "length unknown")


API = [("gauge", 1), ("meter", 1), ("increment", 1), ("decrement", 1), ("timing", 1), ("distinct", 1), ("sli", 1), ("sli_error", 0), ("report", 2)]


def do_api(ctx, rep, cls):
    for meth, nargs in API:
        I = ctx.interp()

        def sc(I):
            c = ctx.need_class(I, "txstatsd.metrics.metrics" if cls == "Metrics" else "txstatsd.metrics.extendedmetrics", cls)
            o = I.call(c, [sym("cfg:connection", "obj"), sym("namespace", "str")], {}, None)
            for i in range(4):
                v = [sym("value%d" % i, "str" if meth in ("distinct",) else "float")]
                if meth == "report":
                    v = [v[0], const("pd")]
                I.call(I.getattr(o, meth, None), [sym("name", "str")] + v[:nargs], {}, None)
                measure(I, o)
            return o
        subj = "%s.%s" % (cls, meth)
        for r in paths(ctx, rep, "api-adds-nothing", subj, I, sc):
            ms = measures(r)
            d = [grown(ms, i - 1, i) for i in (2, 3)]
            tot = [total(x) for x in d]
            if all((x or 0) > 0 for x in tot):
                rep.violation("api-adds-nothing", subj, "each call for one name adds %s" % tell(d[-1]), None, path_text(r))
            elif None in tot:
                rep.undecided("api-adds-nothing", subj, tell(d[-1]))
            else:
                rep.ok("api-adds-nothing", subj)
