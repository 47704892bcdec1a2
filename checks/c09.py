"""C09: (1) the run of the inspector's thread against a reactor that is responsive, stuck or late, with opaque
metrics and inside the service tree that createService returns, and (2) writes of application threads
through the Twisted client in every state, alone, through the metrics objects and through the hashing client, are
interpreted; what happens in the thread outside the calls handed over to the reactor is compared with what a
thread may do: hand over calls, and nothing else with the processor, a metrics object, a transport or the callback."""
from checks.c18 import *
from checks.c11 import scenario as _unused, resolved_later, HOST, PORT, IP, DATA, CB

TECHNIQUE = "static analysis: abstract interpretation of the threads' code with an effect analysis of what is done outside the calls handed over to the reactor"
ASSUMPTIONS = ["reactor.callFromThread and twisted.internet.threads.blockingCallFromThread make the calls given in the reactor thread",
               "a plain UDP socket belongs to the thread that uses it; two threads of an application do not write at the same time (see C42)"]
OVER = ("callFromThread", "blockingCallFromThread", "isInIOThread", "addSystemEventTrigger")
GUARDED = ("cfg:metrics", "cfg:reactor", "cfg:transport", "cfg:callback", "cfg:connected", "cfg:disconnected", "callback", "transport", "cfg.process")


def outside(events):
    """Events of the threads that are not part of a call handed over."""
    depth, on = 0, False
    for e in events:
        if e.kind == "mark":
            if e.what == "thread":
                on = True
            elif e.what == "thread-end":
                on = False
            elif e.what == "handed":
                depth += 1
            elif e.what == "handed-end":
                depth -= 1
            continue
        if on and not depth:
            for x in all_events([e]):
                yield x


def touched(e):
    """What a call in the thread does with something that belongs to the reactor."""
    if e.kind == "write":
        return None
    if e.kind != "call":
        return None
    n = callname(e)
    last = n.rsplit(".", 1)[-1]
    if last in OVER:
        return None
    if n.startswith("twisted.internet.reactor."):
        return "calls %s" % n
    for g in GUARDED:
        if n.startswith(g):
            return "calls %s" % n
    return None


def common(I):
    I.cfg.ext["twisted.python.log.err"] = lambda I, a, k, n: NONE
    I.cfg.ext["cfg.log"] = lambda I, a, k, n: NONE
    I.cfg.ext["twisted.python.threadable.isInIOThread"] = lambda I, a, k, n: FALSE
    I.cfg.opaque_attrs["ident"] = lambda I, o, n: const(7)


def hand(I, f, a, k):
    I.event("mark", "handed")
    try:
        I.call(f, list(a), dict(k), None)
    finally:
        I.event("mark", "handed-end")


def thread_run(ctx, I, service, how, rounds, endless=False):
    """Start the inspector's service and run its thread."""
    pending = []
    st = {"sleeps": 0}

    def sleep(I, a, kw, n):
        st["sleeps"] += 1
        if how == "late" and st["sleeps"] > 1 or how == "burst" and st["sleeps"] == rounds:
            while pending and (how == "burst" or len(pending) > 1):
                hand(I, *pending.pop(0))
        if st["sleeps"] == rounds and not endless:
            m(I, service, "stopService")
        if st["sleeps"] > rounds:
            raise Stop()
        return NONE

    def over(I, base, a, kw, n):
        I.event("call", ("attr", base, "callFromThread"), a, kw, node=n, ret=NONE)
        if how == "responsive":
            hand(I, a[0], a[1:], kw)
        elif how in ("late", "burst"):
            pending.append((a[0], a[1:], kw))
        return NONE

    def blocking(I, a, kw, n):
        hand(I, a[1], a[2:], kw)
        return NONE
    I.cfg.ext["time.sleep"] = sleep
    I.cfg.opaque_methods["callFromThread"] = over
    I.cfg.ext["twisted.internet.reactor.callFromThread"] = lambda I, a, kw, n: over(I, ("x", "twisted.internet.reactor"), a, kw, n)
    I.cfg.ext["twisted.internet.threads.blockingCallFromThread"] = blocking
    before = [i for i in instances(I, I.st.heap, "Thread") if is_on(I, i, "alive")]
    m(I, service, "startService")
    threads = [i for i in instances(I, I.st.heap, "Thread") if is_on(I, i, "alive") and i not in before]
    if len(threads) != 1:
        raise Undecided("%d threads are begun" % len(threads))
    return ("obj", threads[0])


def go(I, t):
    target = attr(I, I.st.heap, t[1], "target")
    I.event("mark", "thread")
    if target is not None and target != NONE:
        I.call(target, [], {}, None)
    else:
        m(I, t, "run")
    I.event("mark", "thread-end")


def inspector_alone(ctx, how, rounds):
    def sc(I):
        common(I)
        queue(I)
        s = I.call(ctx.need_class(I, "txstatsd.report", "ReactorInspectorService"), [sym("cfg:reactor", "obj"), sym("cfg:metrics", "obj")], {}, None)
        go(I, thread_run(ctx, I, s, how, rounds))
    return sc


SHARED = ("txstatsd.metrics.", "txstatsd.server.", "txstatsd.client.", "txstatsd.stats.", "twisted.plugins.", "txstatsd.protocol.", "txstatsd.service.")


def picture(I):
    """The contents of every object of the server and of what can be reached from it."""
    h = I.st.heap
    roots = [i for i in sorted(h) if h.peek(i).kind == "inst" and any(str(q).startswith(SHARED) for q in lineage(I, h.peek(i).cls))]
    own = [i for i in sorted(h) if h.peek(i).kind == "inst" and any(str(q).startswith("txstatsd.report.") for q in lineage(I, h.peek(i).cls))]
    out = {}
    for i in sorted(reach(I, ("tuple",) + tuple(("obj", i) for i in roots), own)):
        o = h.peek(i)
        out[i] = (getattr(o, "cls", None) or o.kind, dict(o.attrs), o.content, tuple(sorted((o.entries or {}).items(), key=repr)))
    return out


def inspector_tree(ctx, o, how, rounds):
    def after(I, root, d):
        found = instances(I, I.st.heap, "ReactorInspectorService")
        if len(found) != 1:
            found = [i for i in instances(I, I.st.heap, "Service") if "nspector" in I.st.heap.peek(i).cls]
        if len(found) != 1:
            raise Undecided("the inspector's service is not found")
        t = thread_run(ctx, I, ("obj", found[0]), how, rounds, True)
        was = picture(I)
        try:
            go(I, t)
        except Stop:
            pass
        now = picture(I)
        for i in was:
            if i in now and was[i] != now[i]:
                I.event("mark", "changed", [const(str(was[i][0]).split(".")[-1])])
                return

    def sc(I):
        common(I)
        I.cfg.ext["platform.node"] = lambda I, a, k, n: const("node9")
        queue(I)
        create(ctx, o, sym("cfg:reactor", "obj"), after)(I)
    return sc


USES = {"plain metrics": (("gauge", "n1", 3, 0.5), ("increment", "n2"), ("timing", "n3", 3)),
        "metrics": (("gauge", "n1", 3), ("sli_error", "n4"), ("increment", "n2", 2), ("timing", "n3", 3), ("sli", "n5", 3, 2), ("meter", "n6", 2), ("report", "n7", 3, "g"), ("clear", "n1"))}


def application(ctx, seq, via):
    """Writes of an application thread between what happens in the reactor thread."""
    def sc(I):
        common(I)
        made = resolved_later(ctx, I)
        c = ctx.need_class(I, "txstatsd.protocol", "TwistedStatsDClient")
        start = len(I.st.events)
        clients = []
        for n in range(2 if via == "hashing" else 1):
            o = I.call(I.getattr(c, "create", None), [HOST if n == 0 else sym("cfg:host2", "str"), PORT],
                       {"connect_callback": sym("cfg:connected", "callable"), "disconnect_callback": sym("cfg:disconnected", "callable"), "reactor": sym("cfg:reactor", "obj")}, None)
            clients.append(o)
        top = clients[0]
        if via == "hashing":
            top = I.call(ctx.need_class(I, "txstatsd.client", "ConsistentHashingClient"), [I.new_list(clients)], {}, None)
        elif via == "metrics":
            top = I.call(ctx.need_class(I, "txstatsd.metrics.extendedmetrics", "ExtendedMetrics"), [clients[0], const("app")], {}, None)
        elif via == "plain metrics":
            top = I.call(ctx.need_class(I, "txstatsd.metrics.metrics", "Metrics"), [clients[0], const("app")], {}, None)
        protos = [I.call(ctx.need_class(I, "txstatsd.protocol", "StatsDClientProtocol"), [o], {}, None) for o in clients]
        settle(I, start)
        for k, op in enumerate(seq):
            start = len(I.st.events)
            if op == "write":
                I.event("mark", "thread")
                try:
                    if via in ("client", "hashing"):
                        I.call(I.getattr(top, "write", None), [DATA(k) if via == "client" else const("name%d:3|c" % k)] + ([sym("cfg:callback", "callable")] if via == "client" else []), {}, None)
                    else:
                        op = USES[via][k % len(USES[via])]
                        m(I, top, op[0], *[const(x) for x in op[1:]])
                finally:
                    I.event("mark", "thread-end")
            else:
                for n, (o, proto) in enumerate(zip(clients, protos)):
                    if op == "connect":
                        I.setattr(proto, "transport", sym("transport%d" % n, "obj"), None)
                        m(I, proto, "startProtocol")
                    elif op == "disconnect":
                        m(I, proto, "stopProtocol")
                    elif op == "resolve" and n < len(made):
                        m(I, made[n], "callback", IP)
            settle(I, start)
    return sc


def sequences(ctx):
    import itertools
    out = []
    for k in range(1, 6 if ctx.thorough else 5):
        for s in itertools.product(("write", "resolve", "connect", "disconnect"), repeat=k):
            if s.count("resolve") > 1 or s[-1] != "write" or s[0] == "disconnect":
                continue
            out.append(list(s))
    return out


def run(ctx, rep):
    jobs = []
    for how in ("responsive", "stuck", "late", "burst"):
        for n in (1, 2, 3) if not ctx.thorough else (1, 2, 3, 4, 5):
            jobs.append(("inspector", how, n))
    base = {"flush-interval": const(10000), "instance-name": const("web1"), "prefix": const("pfx"), "monitor-message": const("ping"), "monitor-response": const("pong")}
    for c in (1, 0):
        for report in ("reactor", "reactor, process"):
            for routing in ("", "any => drop"):
                for n in (1, 3):
                    jobs.append(("tree", dict(base, **{"statsd-compliance": const(c), "report": const(report), "routing": const(routing)}), "stuck", n))
    for via in ("client", "metrics", "plain metrics", "hashing"):
        for s in sequences(ctx):
            if via == "client" or len(s) <= 3:
                jobs.append(("application", s, via))
    ctx.pmap(lambda js, rp: [one(ctx, rp, *j) for j in js], [jobs[i::24] for i in range(24)])


def one(ctx, rep, kind, *a):
    I = stubbed(ctx)
    f = {"inspector": inspector_alone, "tree": inspector_tree, "application": application}[kind](ctx, *a)
    name = "%s reactor, %d rounds" % a if kind == "inspector" else "in the service with %s, %s reactor" % (told(a[0], ()), a[1]) if kind == "tree" else "%s through the %s" % (", ".join(a[0]), a[1])
    who = "a write in an application thread" if kind == "application" else "the inspector's thread"

    def sc(I):
        try:
            f(I)
        except Stop:
            pass
    for r in ctx.explore(I, sc):
        if r.kind == "undecided":
            rep.undecided(kind, name, r.value)
            continue
        bad = None
        for e in outside(r.events):
            bad = touched(e)
            if bad:
                rep.violation("thread", kind, "%s: %s %s outside the reactor thread" % (name, who, bad), e.where, path_text(r))
                break
        for e in r.events:
            if not bad and e.kind == "mark" and e.what == "changed":
                bad = True
                rep.violation("thread", kind, "%s: the inspector's thread changes an object of the class %s of the server" % (name, e.args[0][1]), None, path_text(r))
        if not bad:
            if r.kind == "raise":
                rep.undecided(kind, name, r.value)
            else:
                rep.ok(kind, name)
