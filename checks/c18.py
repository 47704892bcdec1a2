"""C18: (1) histories of schedule, start, failure of a task and stop of the reporting service, (2) of the
flushing service, (3) the life of a redirecting TCP connection against every behaviour of the network,
(4) the run of the inspector's thread after and around a stop and (5) start and stop of the service tree
that createService returns for many configurations are interpreted; what runs afterwards is read off the
objects that started it."""
from checks.service import *

ASSUMPTIONS = ["services, listeners, LoopingCall, connectors and reconnecting factories behave as described in stubs/twisted_model.py",
               "intervals are positive"]
TECHNIQUE = "static analysis: abstract interpretation of histories of schedule, start, failure and stop; typestate of every task, listener, connection, thread and service at the end"


def m(I, x, name, *a):
    return I.call(I.getattr(x, name, None), list(a), {}, None)


def loops(I, but=()):
    return [i for i in instances(I, I.st.heap, "LoopingCall") if i not in but]


def is_on(I, i, name="running"):
    v = attr(I, I.st.heap, i, name)
    if not is_const(v):
        raise Undecided("whether a task runs")
    return bool(v[1])


def interval(k):
    return sym("interval%d" % k, "num")


class Broken(Exception):
    """What a history leaves behind contradicts the property."""

    def __init__(self, rule, text):
        Exception.__init__(self, text)
        self.rule = rule


def expect(I, ok, rule, text):
    if not ok:
        I.event("mark", "broken", [const(rule), const(text)])
        raise Stop()


class Stop(Exception):
    pass


def guarded(f):
    """A scenario that ends where the property is broken."""
    def sc(I):
        try:
            f(I)
        except Stop:
            pass
        I.event("mark", "end")
    return sc


def step(I, f, rule, text):
    """A call that must not raise."""
    try:
        return f()
    except PyRaise as e:
        expect(I, False, rule, "%s raises %s" % (text, e))


# ------------------------------------------------------------------ (1) and (2)
def reporting(ctx, history):
    def sc(I):
        I.cfg.ext["twisted.python.log.err"] = lambda I, a, k, n: NONE
        I.cfg.ext["cfg.function"] = lambda I, a, k, n: I.new_dict()
        for k in range(6):
            I.assume(I.lt0(("neg", interval(k))), True)
        before = set(I.st.heap)
        s = I.call(ctx.need_class(I, "txstatsd.report", "ReportingService"), [const("here")], {}, None)
        tasks = []          # (loop, interval index) in the order scheduled
        running = False
        dead = set()
        for j, h in enumerate(history):
            at = "after %s" % ", ".join(history[:j + 1])
            if h.startswith("schedule"):
                k = len(tasks)
                plain = h.endswith("plain")
                known = set(loops(I, before)) | {i for i, _ in tasks}
                step(I, lambda: m(I, s, "schedule", ("x", "cfg.function"), interval(k), NONE if plain else ("x", "cfg.report")), "schedule", "%s: schedule" % at)
                new = [i for i in loops(I, before) if i not in known]
                if len(new) != 1:
                    raise Undecided("%d tasks made by a schedule" % len(new))
                tasks.append((new[0], k))
            elif h == "start":
                step(I, lambda: m(I, s, "startService"), "start", "%s: startService" % at)
                running = True
                dead = set()
            elif h == "stop":
                step(I, lambda: m(I, s, "stopService"), "stop", "%s: stopService" % at)
                running = False
            elif h.startswith("fail"):
                i = int(h[4:])
                I.setattr(("obj", tasks[i][0]), "running", FALSE, None)
                dead.add(i)
            for n, (i, k) in enumerate(tasks):
                on = is_on(I, i)
                if running and n not in dead:
                    expect(I, on, "begun", "%s: the task scheduled as number %d does not run" % (at, n + 1))
                    v = attr(I, I.st.heap, i, "interval")
                    same(I, v, interval(k), "begun", "%s: the task scheduled as number %d" % (at, n + 1))
                if not running:
                    expect(I, not on, "stopped" if "start" in history[:j + 1] else "early", "%s: the task scheduled as number %d runs" % (at, n + 1))
    return sc


def same(I, v, want, rule, what):
    if v == want:
        return
    try:
        differ = value(point(), v) != value(point(), want)
    except (NoValue, Unknown):
        raise Undecided("interval %s" % show(v))
    expect(I, not differ, rule, "%s has the interval %s instead of %s" % (what, show(v), show(want)))


def point():
    return Point(random.Random(1), dict([(interval(k), Fraction(2 * k + 3)) for k in range(6)] + [(sym("ms", "int"), Fraction(7000))]))


def flushing(ctx, history):
    def sc(I):
        ms = sym("ms", "int")
        I.assume(I.lt0(("neg", ms)), True)
        before = set(I.st.heap)
        s = I.call(ctx.need_class(I, "txstatsd.service", "StatsDService"), [sym("cfg:client", "obj"), sym("cfg:processor", "obj"), ms], {}, None)
        running = False
        dead = False
        for j, h in enumerate(history):
            at = "flush service after %s" % ", ".join(history[:j + 1])
            if h == "start":
                step(I, lambda: m(I, s, "startService"), "start", "%s: startService" % at)
                running, dead = True, False
            elif h == "stop":
                step(I, lambda: m(I, s, "stopService"), "stop", "%s: stopService" % at)
                running = False
            elif h == "fail":
                for i in loops(I, before):
                    I.setattr(("obj", i), "running", FALSE, None)
                dead = True
            on = [i for i in loops(I, before) if is_on(I, i)]
            if running and not dead:
                expect(I, len(on) == 1, "begun", "%s: %d tasks run" % (at, len(on)))
            if not running:
                expect(I, not on, "stopped", "%s: the flush still runs" % at)
    return sc


# ------------------------------------------------------------------ (3)
def connector(I, out):
    def connect(I, a, kw, n):
        a = list(a) + [kw[x] for x in ("factory",) if x in kw]
        c = I.call(I.lookup_global("stubs.twisted_model", "Connector"), a[:3], {}, n)
        out.append(c)
        return c
    I.cfg.ext["twisted.internet.reactor.connectTCP"] = connect
    I.cfg.opaque_methods["connectTCP"] = lambda I, base, a, kw, n: connect(I, a, kw, n)


def redirect(ctx, history, how):
    def sc(I):
        conns = []
        connector(I, conns)
        I.cfg.ext["twisted.internet.reactor.callLater"] = lambda I, a, k, n: sym("cfg:later", "obj")
        if how == "rule":
            root = I.call(I.lookup_global("stubs.twisted_model", "MultiService"), [], {}, None)
            I.call(ctx.need_class(I, "txstatsd.server.router", "Router"), [sym("cfg:processor", "obj"), const("any => redirect_tcp h 1234"), root], {}, None)
            s = root
        else:
            f = I.call(ctx.need_class(I, "txstatsd.server.router", "TCPRedirectClientFactory"), [], {}, None)
            s = I.call(ctx.need_class(I, "txstatsd.server.router", "TCPRedirectService"), [const("h"), const(1234), f], {}, None)
        started = stopped = False
        for j, h in enumerate(history):
            at = "redirect_tcp after %s" % ", ".join(history[:j + 1])
            if h == "start":
                step(I, lambda: m(I, s, "startService"), "start", "%s: startService" % at)
                started = True
                expect(I, len(conns) == 1, "begun", "%s: %d connections are begun" % (at, len(conns)))
            elif h == "stop":
                step(I, lambda: m(I, s, "stopService"), "stop", "%s: stopService" % at)
                stopped = True
            else:
                for c in list(conns):
                    step(I, lambda: m(I, c, h), "network", at)
            if stopped:
                for c in conns:
                    st = attr(I, I.st.heap, c[1], "state")
                    f = attr(I, I.st.heap, c[1], "factory")
                    w = attr(I, I.st.heap, f[1], "waiting")
                    if not is_const(st) or not is_const(w):
                        raise Undecided("the state of a connection")
                    expect(I, st[1] == "disconnected", "stopped", "%s: the connection is still %s" % (at, st[1]))
                    expect(I, not w[1], "stopped", "%s: the connection will be tried again" % at)
    return sc


# ------------------------------------------------------------------ (4)
def inspector(ctx, when):
    """when: the number of the sleep during which the thread is told to stop; 0: before it runs."""
    def sc(I):
        count = {"sleeps": 0, "calls": 0}
        box = []
        I.cfg.ext["cfg.log"] = lambda I, a, k, n: NONE
        I.cfg.opaque_attrs["ident"] = lambda I, o, n: const(7)

        def sleep(I, a, kw, n):
            count["sleeps"] += 1
            if count["sleeps"] > when:
                I.event("mark", "broken", [const("stopped"), const("the inspector's thread goes on after %s" % ("it has been stopped" if when == 0 else "a stop during its sleep %d" % when))])
                raise Stop()
            if count["sleeps"] == when:
                m(I, box[0], "stopService")
            return NONE

        def call(I, base, a, kw, n):
            count["calls"] += 1
            if a and a[0][0] == "fn" and len(a) == 1:
                I.call(a[0], [], {}, n)         # the reactor is responsive
            return NONE
        I.cfg.ext["time.sleep"] = sleep
        I.cfg.opaque_methods["callFromThread"] = call
        queue(I)
        s = I.call(ctx.need_class(I, "txstatsd.report", "ReactorInspectorService"), [sym("cfg:reactor", "obj"), sym("cfg:metrics", "obj")], {}, None)
        box.append(s)
        before = [i for i in instances(I, I.st.heap, "Thread") if is_on(I, i, "alive")]
        step(I, lambda: m(I, s, "startService"), "start", "startService of the inspector")
        threads = [i for i in instances(I, I.st.heap, "Thread") if is_on(I, i, "alive") and i not in before]
        expect(I, len(threads) == 1, "begun", "%d threads are begun by the inspector's service" % len(threads))
        if when == 0:
            step(I, lambda: m(I, s, "stopService"), "stop", "stopService of the inspector")
        t = ("obj", threads[0])
        target = attr(I, I.st.heap, threads[0], "target")
        if target is not None and target != NONE:
            I.call(target, [], {}, None)
        else:
            m(I, t, "run")
    return sc


def queue(I):
    """Queue.Queue as a list that never blocks."""
    I.cfg.ext["Queue.Queue"] = lambda I, a, k, n: I.call(I.lookup_global("stubs.twisted_model", "FifoQueue"), [], {}, n)


# ------------------------------------------------------------------ (5)
def reach(I, v, but=()):
    """The objects that can be reached from one, through attributes, elements and closures."""
    seen = set()
    but = set(but)
    todo = [v]
    while todo:
        t = todo.pop()
        if not isinstance(t, tuple):
            continue
        if t and t[0] == "obj" and len(t) == 2 and t[1] in I.st.heap:
            if t[1] in seen or t[1] in but:
                continue
            seen.add(t[1])
            o = I.st.heap.peek(t[1])
            todo += list(o.attrs.values())
            if o.content is not None:
                todo.append(o.content)
            for k, x in (o.entries or {}).items():
                todo += [k, x]
        else:
            todo += [x for x in t if isinstance(x, tuple)]
    return seen


def tree(ctx, o, dead):
    conns = []

    def after(I, root, d):
        # services and their parents
        attached = {root[1]}
        for i in instances(I, I.st.heap, "Service"):
            seen = set()
            x = ("obj", i)
            while x[0] == "obj" and x[1] not in seen and x[1] != root[1]:
                seen.add(x[1])
                x = attr(I, I.st.heap, x[1], "parent") or NONE
            if x == NONE or x[0] == "obj":
                cls = I.st.heap.peek(i).cls.split(".")[-1]
                expect(I, x == root, "attached", "the service %s is not attached to the root service" % cls)
            else:
                raise Undecided("the parent of a service")
        step(I, lambda: m(I, root, "startService"), "start", "startService of the root service")
        ls = loops(I)
        live = reach(I, root)
        for i in [i for i in ls if i in live]:
            expect(I, is_on(I, i), "begun", "a periodic task of the service does not run after the start: %s" % show(attr(I, I.st.heap, i, "f")))
        ports = instances(I, I.st.heap, "ListeningPort")
        want = 1 + sum(1 for n in ("listen-tcp-port", "http-port") if o.get(n, NONE) != NONE) + o["#udp"]
        expect(I, len([p for p in ports if is_on(I, p, "listening")]) == want, "begun", "%d ports are listened to after the start instead of %d" % (len(ports), want))
        for k, what in enumerate(dead):
            if what == "connect":
                for c in conns:
                    m(I, c, "established")
            elif what < len(ls):
                I.setattr(("obj", ls[what]), "running", FALSE, None)
        step(I, lambda: m(I, root, "stopService"), "stop", "stopService of the root service" + (" after a task has ended" if dead else ""))
        for i in loops(I):
            expect(I, not is_on(I, i), "stopped", "a periodic task still runs after the stop: %s" % show(attr(I, I.st.heap, i, "f")))
        for i in instances(I, I.st.heap, "ListeningPort"):
            expect(I, not is_on(I, i, "listening"), "stopped", "a port is still listened to after the stop")
        for i in instances(I, I.st.heap, "Thread"):
            expect(I, is_on(I, i, "alive") == ("reactor" in (o.get("report") or NONE)[1]), "begun", "the inspector's thread") if o.get("report", NONE) != NONE else None
        for c in conns:
            st = attr(I, I.st.heap, c[1], "state")
            if not is_const(st):
                raise Undecided("the state of a connection")
            expect(I, st[1] == "disconnected", "stopped", "a connection is still %s after the stop" % st[1])
        man = calls(I.st.events, "setServiceParent")
        made = [e for e in calls(I.st.events, "CarbonClientManager")]
        if made and not any("CarbonClientManager" in callname(e) and e.args and e.args[0] == root for e in man):
            if any("CarbonClientManager" in callname(e) for e in man) or not any(e.args and e.args[0] == root for e in calls(I.st.events, "addService")):
                expect(I, False, "attached", "the carbon client manager is not attached to the root service")

    def sc(I):
        I.cfg.ext["twisted.python.log.err"] = lambda I, a, k, n: NONE
        I.cfg.ext["platform.node"] = lambda I, a, k, n: const("node9")
        I.cfg.ext["twisted.internet.reactor.callLater"] = lambda I, a, k, n: sym("cfg:later", "obj")
        I.cfg.opaque_attrs["ident"] = lambda I, o, n: const(7)
        queue(I)
        del conns[:]
        connector(I, conns)
        create(ctx, {k: v for k, v in o.items() if not k.startswith("#")}, sym("cfg:reactor", "obj"), after)(I)
    return sc


def configurations(ctx):
    base = {"flush-interval": const(10000), "instance-name": const("web1"), "prefix": const("pfx"), "monitor-message": const("ping"),
            "monitor-response": const("pong"), "#udp": 0}
    tcp, http = {"listen-tcp-port": opt("listen-tcp-port")}, {"http-port": opt("http-port")}
    out = []
    for c in (1, 0):
        k = dict(base, **{"statsd-compliance": const(c)})
        out += [k, dict(k, **tcp), dict(k, **http), dict(k, report=const("reactor, process, system"), **dict(tcp, **http)),
                dict(k, **dict(routing=const("any => redirect_tcp h 1234"))),
                dict(k, **{"routing": const("any => redirect_udp 127.0.0.1 1234"), "#udp": 1}),
                dict(k, **{"routing": const("any => redirect_udp 127.0.0.1 1234\nany => redirect_tcp h 1\nany => redirect_tcp h 2"), "#udp": 1})]
    out += [dict(base, **{"dump-mode": const(1)}), dict(base, hosts=[const("h1"), const("h2")]), dict(base, report=const("net"))]
    return out


def told(o, dead):
    b = ", ".join("%s=%s" % (k, v[1] if is_const(v) else "given") for k, v in sorted(o.items()) if not isinstance(v, (int, list)) and k not in
                  ("flush-interval", "instance-name", "prefix", "monitor-message", "monitor-response"))
    return "%s%s" % (b or "defaults", "; ended before the stop: %s" % (dead,) if dead else "")


def histories(ctx):
    S, P = "schedule", "schedule plain"
    hs = [["start", "stop"], ["stop"], [S, "start", "stop"], [S, S, "start", "stop"], [S, P, S, "start", "stop"], ["start", S, "stop"], ["start", S, S, "stop"],
          [S, "start", S, "stop"], [S, S, "start", "fail0", "stop"], [S, S, "start", "fail1", "stop"], [P, S, P, "start", "fail1", "fail2", "stop"],
          [S, "start", "fail0", S, "stop"], [S, S, "start", "stop", "start", "stop"], [S, "start", "stop", S, "start", S, "stop"], [S, "start", "fail0", "stop", "start", "stop"],
          [S, "stop"], [S, "start", "stop", "stop"]]
    if ctx.thorough:
        import itertools
        for n in range(2, 7):
            for h in itertools.product([S, "start", "stop", "fail0", "fail1"], repeat=n):
                if h[-1] == "stop" and valid(h):
                    hs.append(list(h))
    return hs


def valid(h):
    n, on, dead = 0, False, set()
    for x in h:
        if x == "start":
            if on:
                return False
            on, dead = True, set()
        elif x == "stop":
            on = False
        elif x.startswith("fail"):
            i = int(x[4:])
            if not on or i >= n or i in dead:
                return False
            dead.add(i)
        else:
            n += 1
            if n > 3:
                return False
    return True


NETWORK = [[], ["failed"], ["failed", "retry"], ["failed", "retry", "failed"], ["established"], ["established", "lost"], ["established", "lost", "retry"],
           ["established", "lost", "retry", "established"], ["failed", "retry", "established"], ["failed", "retry", "established", "lost", "retry", "failed", "retry"]]


def run(ctx, rep):
    jobs = [("reporting", h) for h in histories(ctx)]
    jobs += [("flushing", h) for h in (["start", "stop"], ["start", "fail", "stop"], ["start", "stop", "start", "stop"], ["start", "fail", "stop", "start", "stop"], ["stop"])]
    for how in ("service", "rule"):
        jobs += [("redirect", ["start"] + n + ["stop"] + e, how) for n in NETWORK for e in ([], ["retry", "established"])]
    jobs += [("inspector", k) for k in (0, 1, 2)]
    for o in configurations(ctx):
        jobs += [("tree", o, ()), ("tree", o, ("connect",)), ("tree", o, (0,)), ("tree", o, (0, 1))]
    n = 8
    ctx.pmap(lambda js, rp: [one(ctx, rp, *j) for j in js], [jobs[i:i + n] for i in range(0, len(jobs), n)])


def one(ctx, rep, kind, *a):
    I = stubbed(ctx)
    f = {"reporting": reporting, "flushing": flushing, "redirect": redirect, "inspector": inspector, "tree": tree}[kind](ctx, *a)
    name = "with %s" % told(*a) if kind == "tree" else ", ".join(a[0]) if isinstance(a[0], list) else str(a[0])
    for r in ctx.explore(I, guarded(f)):
        if r.kind == "undecided":
            rep.undecided(kind, name, r.value)
            continue
        bad = [e for e in r.events if e.kind == "mark" and e.what == "broken"]
        if bad:
            p = point()
            try:
                sure = on_path(r, p) is not False
            except (NoValue, Unknown):
                sure = False
            unknown = [x for x, v in r.facts.log if x[0] not in ("lt0", "eq0", "nonempty")]
            if not sure or unknown:
                rep.undecided(kind, name, bad[0].args[1][1])
            else:
                rep.violation(bad[0].args[0][1], kind, ("%s: " % name if kind == "tree" else "") + bad[0].args[1][1], None, path_text(r))
            continue
        if r.kind == "raise":
            rep.undecided(kind, name, r.value)
            continue
        rep.ok(kind, name)
