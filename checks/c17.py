"""C17: createService() is interpreted for many configurations and the service it returns is exercised from
outside: messages arrive at its listeners, its scheduled reports run, its flush runs, its pages are asked for.
What goes to the carbon client, to the pingers and into the pages is compared with one processor of the
configured kind that is fed the same messages."""
from checks.service import *

ASSUMPTIONS = ["services, listeners, LoopingCall, Deferred and web resources behave as described in stubs/twisted_model.py",
               "the carbon client and its router are opaque"]
TECHNIQUE = "static analysis: abstract interpretation of createService and of the service tree it returns per configuration; carbon, reply and page events against one reference processor"

NAMES = {"hosts": "carbon-cache-host", "ports": "carbon-cache-port", "names": "carbon-cache-name"}
REPORTS = ["PROCESS", "COUNTER", "IO", "NET", "SYSTEM"]
SIZES = {"PROCESS": 1, "COUNTER": 1, "IO": 1, "NET": 2, "SYSTEM": 3}
SLI = ("tuple", ("tuple", const("rules"), const("*t.sli => slow IF above 5")),)


def label(o):
    out = []
    for k, v in sorted(o.items()):
        if k in NAMES:
            out.append("%s=%s" % (NAMES[k], [x[1] if is_const(x) else show(x) for x in v]))
        else:
            out.append("%s=%s" % (k, v[1] if is_const(v) else show(v)))
    return ", ".join(out) or "defaults"


class Watch(object):
    """The external parties: the carbon client, the reactor, the report functions, the pages."""

    def __init__(self):
        self.functions = []

    def install(self, I):
        for group in REPORTS:
            fs = [("x", "cfg.%s_%d" % (group.lower(), i)) for i in range(SIZES[group])]
            for f in fs:
                I.cfg.ext[f[1]] = self.reporter(f[1])
            if "txstatsd.process" in I.modules:
                I.modules["txstatsd.process"][group + "_STATS"] = ("tuple",) + tuple(fs)
        I.cfg.opaque_methods["getReaders"] = lambda I, b, a, k, n: I.new_list([const("a"), const("b"), const("c")])
        I.cfg.opaque_methods["getWriters"] = lambda I, b, a, k, n: I.new_list([const("a"), const("b")])
        I.cfg.ext["platform.node"] = lambda I, a, k, n: const("node9")
        I.cfg.ext["twisted.python.log.err"] = lambda I, a, k, n: NONE

    def reporter(self, name):
        def f(I, a, kw, node):
            I.event("call", ("x", name), a, kw, node=node, ret=NONE)
            d = I.new_dict()
            I.setitem(d, const(name[4:]), const(3), None)
            return d
        return f


PING, PONG = "are you there", "yes indeed"


def requested(o):
    v = o.get("report", NONE)
    if v == NONE:
        return None
    return [x.strip() for x in v[1].split(",")]


def expected_reports(o):
    """The report functions that the option asks for, with their numbers of calls."""
    out = {}
    for name in requested(o) or []:
        for i in range(SIZES.get(name.upper(), 0)):
            f = "cfg.%s_%d" % (name.lower(), i)
            out[f] = out.get(f, 0) + 1
    return out


def own(o, first):
    """The messages of the server's own metrics in one round of reports."""
    inst = o["instance-name"][1] or "node9"
    out = ["%s.destinations.x_1:%d|g" % (inst, 4 if first else 0)]
    if requested(o) is not None:
        out += [inst + ".reactor.readers:3|g", inst + ".reactor.writers:2|g"]
    out += ["%s.%s:3|g" % (inst, f[4:]) for f in sorted(expected_reports(o))]
    return out


def scenario(ctx, o):
    drop = o.get("routing", const(""))[1] != ""

    def prepare(I):
        Watch().install(I)
        d = I.new_dict()
        I.setitem(d, const("destinations.x:1"), const(4), None)
        I.cfg.consts["carbon.instrumentation.stats"] = d
        pending = []

        def later(I, base, a, kw, n):
            pending.append((a[1], list(a[2:]), kw))
            return sym("cfg:delayed", "obj")

        def coiterate(I, base, a, kw, n):
            drain(I, a[0])
            return sym("cfg:done", "obj")
        I.cfg.opaque_methods["callLater"] = later
        I.cfg.opaque_methods["coiterate"] = coiterate
        return pending

    def run(I, root, d, pending):
        m = lambda x, name, *a: I.call(I.getattr(x, name, None), list(a), {}, None)
        m(root, "startService")
        handlers = {}
        for i in instances(I, I.st.heap, "ListeningPort"):
            kind, port, h = (attr(I, I.st.heap, i, n) for n in ("kind", "port", "handler"))
            site = is_inst(I, h, "Site")
            I.event("mark", "listens", [kind if not site else const("http"), port])
            handlers.setdefault("udp" if kind == const("udp") else "http" if site else "tcp", h)
        I.event("mark", "inspectors", [const(sum(1 for i in instances(I, I.st.heap, "Thread") if attr(I, I.st.heap, i, "alive") == TRUE))])
        fed = []

        def settle():
            while pending:
                f, a, kw = pending.pop(0)
                I.call(f, a, kw, None)

        def tasks(n):
            I.event("mark", "round", [const(n)])
            loops = [i for i in instances(I, I.st.heap, "LoopingCall") if attr(I, I.st.heap, i, "running") == TRUE]
            flushing = lambda i: i in flushers
            for i in sorted(loops, key=lambda i: (flushing(i), i)):
                I.event("mark", "task", [const(i), attr(I, I.st.heap, i, "interval")])
                at = len(I.st.events)
                if flushing(i):
                    I.event("mark", "flush")
                I.call(attr(I, I.st.heap, i, "f"), [], {}, None)
                settle()
                if any(callname(e).endswith(".sendDatapoint") for e in all_events(I.st.events[at:]) if e.kind == "call"):
                    flushers.add(i)
            I.event("mark", "rounded", [const(n)])
        flushers = set()
        tasks(1)
        udp = tcp = None
        if "udp" in handlers:
            udp = handlers["udp"]
            I.setattr(udp, "transport", sym("cfg:udp", "obj"), None)
        if "tcp" in handlers:
            tcp = m(handlers["tcp"], "buildProtocol", sym("cfg:address", "obj"))
            I.setattr(tcp, "transport", sym("cfg:tcp", "obj"), None)
        sender = ("tuple", sym("cfg:host", "str"), sym("cfg:port", "int"))
        for p, recv, extra, texts in ((udp, "datagramReceived", [sender], UDP), (tcp, "lineReceived", [], TCP)):
            if p is None:
                continue
            for t in texts + [PING]:
                if t == PING:
                    I.event("mark", "ping", [const("udp" if p is udp else "tcp")])
                m(p, recv, const(t), *extra)
                settle()
                if t == PING:
                    I.event("mark", "pinged")
                else:
                    fed.append(t)
        tasks(2)
        if "http" in handlers:
            for name in ("list_metrics", "status"):
                page(I, handlers["http"], name)
        # the reference: one processor of the configured kind
        plugins = bundled_plugins(I)
        for p in plugins:
            m(p, "configure", d)
        plugins = I.new_list(plugins)
        compliant, dump = o["statsd-compliance"] != const(0), o.get("dump-mode", const(0)) != const(0)
        kw = {"plugins": plugins}
        args = []
        if not compliant:
            prefix = "statsd" if o["prefix"] == NONE else o["prefix"][1]
            kw["message_prefix"] = const(prefix)
            kw["internal_metrics_prefix"] = const((prefix + "." if prefix else "") + (o["instance-name"][1] or "node9") + ".")
        if dump:
            c = ctx.need_class(I, LOGP, "LoggingMessageProcessor")
            kw["logger"] = ("x", "twisted.python.log")
        else:
            c = ctx.need_class(I, PROC, "MessageProcessor") if compliant else ctx.need_class(I, CONF, "ConfigurableMessageProcessor")
        I.event("mark", "reference")
        ref = I.call(c, args, kw, None)
        process = lambda t: None if drop and t.split(":")[0].endswith("drop") else m(ref, "process", const(t))
        flush = lambda: drain(I, m(ref, "flush", o["flush-interval"]))
        for t in own(o, True):
            process(t)
        flush()
        for t in fed + own(o, False):
            process(t)
        I.event("mark", "reference flush")
        flush()
        I.event("mark", "reference flushed")
        if "http" in handlers:
            I.event("mark", "reference names", [m(ref, "get_metric_names")])

    def sc(I):
        pending = prepare(I)
        return create(ctx, o, sym("cfg:reactor", "obj"), lambda I, root, d: run(I, root, d, pending))(I)
    return sc


UDP = ["udp.count:2|c", "shared:3|c", "udp.drop:1|c", "t.sli:7|sli", "t.sli:3|sli", "udp.time:20|ms", "udp.gauge:4|g"]
TCP = ["tcp.count:5|c", "shared:4|c", "tcp.drop:1|c", "t.sli:8|sli", "udp.time:30|ms"]


def page(I, site, name):
    req = sym("cfg:request", "obj")
    child = I.call(I.getattr(I.getattr(site, "resource", None), "getChildWithDefault", None), [const(name), req], {}, None)
    I.event("mark", "page", [const(name)])
    I.call(I.getattr(child, "render", None), [req], {}, None)
    I.event("mark", "served", [const(name)])


# ------------------------------------------------------------------ judging
def span(events, name, arg=None, until=None):
    """The events after a mark up to another, with all that happens in loops."""
    out = []
    on = False
    for e in events:
        if e.kind == "mark":
            if on and e.what == until:
                return out
            if e.what == name and (arg is None or e.args[0] == const(arg)):
                on = True
                out = []
                continue
        if on:
            out.append(e)
    return out if on else None


def marks(events, name):
    return [e for e in events if e.kind == "mark" and e.what == name]


def no_loops(events, *suffixes):
    for e in events:
        if e.kind == "loop" and calls([e], *suffixes):
            raise Unknown("a loop of unknown length around %s" % "/".join(suffixes))


def points(events):
    no_loops(events, "sendDatapoint")
    out = []
    for e in calls(events, "sendDatapoint"):
        a = e.args
        if len(a) != 2 or not is_const(a[0]) or a[1][0] != "tuple" or len(a[1]) != 3:
            raise Unknown("what is sent to carbon")
        out.append((a[0][1], a[1][2], e.where, callname(e)))
    return out


def yielded(events):
    out = []
    for e in events:
        if e.kind == "loop" and any(x.kind == "yield" for x in all_events([e])):
            raise Unknown("a flush loop of unknown length")
        if e.kind == "yield":
            v = e.args[0]
            if v[0] != "tuple" or len(v) != 4 or not is_const(v[1]):
                raise Unknown("what a flush yields")
            out.append((v[1][1], v[2]))
    return out


def judge_path(rep, o, r):
    told = label({k: v for k, v in o.items() if BASE.get(k) != v})
    V = lambda rule, subject, text, where=None: rep.violation(rule, subject, "with %s: %s" % (told, text), where, path_text(r))
    ev = r.events
    # carbon
    hosts = [x[1] for x in o.get("hosts", [])] or ["127.0.0.1"]
    ports = [x[1] for x in o.get("ports", [])]
    names = [x[1] for x in o.get("names", [])]
    n = len(hosts)
    want = list(zip(hosts, (ports + [2004] * n)[:n], (names + [None] * n)[:n]))
    created = span(ev, "create", until="created")
    no_loops(created, "startClient")
    got = []
    managers = set()
    for e in calls(created, "startClient"):
        managers.add(callname(e).rsplit(".", 1)[0])
        a = e.args[0] if len(e.args) == 1 else None
        if a is None or a[0] not in ("tuple", "list") or not all(is_const(x) for x in a[1:]):
            raise Unknown("the destinations of carbon data")
        got.append(tuple(x[1] for x in a[1:]))
    if sorted(got, key=repr) != sorted(want, key=repr):
        return V("carbon", "destinations", "carbon data go to %s instead of %s" % (got, want), calls(created, "startClient")[0].where if got else None)
    for option, setting in (("max-queue-size", "MAX_QUEUE_SIZE"), ("max-datapoints-per-message", "MAX_DATAPOINTS_PER_MESSAGE")):
        v = r.state.xattrs.get("carbon.conf.settings." + setting)
        w = o.get(option, opt(option))
        if v != w:
            if v is None or is_const(v) or v[0] == "sym":
                return V("limits", option, "carbon's %s is %s instead of %s" % (setting, "not set" if v is None else show(v), show(w)))
            raise Unknown("the limit %s" % show(v))
    # listeners
    want = [("udp", opt("listen-port"))]
    for name, kind in (("listen-tcp-port", "tcp"), ("http-port", "http")):
        if o.get(name, NONE) != NONE:
            want.append((kind, opt(name)))
    got = [(e.args[0][1], e.args[1]) for e in marks(ev, "listens")]
    if sorted(got) != sorted(want):
        if not all(p[0] in ("const", "sym") for k, p in got):
            raise Unknown("the listening ports")
        return V("listeners", "ports", "the service listens at %s instead of %s" % ([(k, show(p)) for k, p in got], [(k, show(p)) for k, p in want]))
    # reports
    m = marks(ev, "inspectors")
    w = 1 if "reactor" in (requested(o) or []) else 0
    if m and m[0].args[0] != const(w):
        return V("reports", "inspector", "%s reactor inspectors run instead of %d" % (show(m[0].args[0]), w))
    want = expected_reports(o)
    for k in (1, 2):
        got = {}
        interval = None
        for e in span(ev, "round", k, "rounded"):
            if e.kind == "mark" and e.what == "task":
                interval = e.args[1]
            elif e.kind == "loop" and any(callname(x).startswith("x(cfg.") or callname(x).startswith("cfg.") for x in all_events([e]) if x.kind == "call"):
                raise Unknown("a loop around report functions")
            elif e.kind == "call":
                f = callname(e)
                f = f[2:-1] if f.startswith("x(") else f
                if f.startswith("cfg.") and f.split("_")[0][4:].upper() in REPORTS:
                    got[f] = got.get(f, 0) + 1
                    if interval != const(60) and f in want:
                        if not is_const(interval) and interval[0] != "sym":
                            raise Unknown("a report interval")
                        if not (is_const(interval) and interval[1] == 60):
                            return V("reports", "interval", "the report %s is made every %s seconds instead of 60" % (f[4:], show(interval)), e.where)
        if got != want:
            return V("reports", "requested", "one round makes the reports %s instead of %s" % (sorted(f[4:] for f in got.items() for f in [f[0]] * f[1]), sorted(f[4:] for f in want)))
    # pings
    for e in marks(ev, "ping"):
        how = e.args[0][1]
        evs = span(ev, "ping", how, "pinged")
        w = calls(evs, "write")
        others = [x for x in calls(evs, "sendLine", "writeSequence")]
        if len(w) != 1 and not others:
            return V("monitor", how, "the monitor message is answered %d times at the %s listener" % (len(w), how))
        if w and w[0].args[:1] and w[0].args[0] != const(PONG) and is_const(w[0].args[0]):
            return V("monitor", how, "the monitor message is answered with %s at the %s listener" % (show(w[0].args[0]), how), w[0].where)
    # datapoints
    sent = points(span(ev, "round", 2, "rounded"))
    ref = yielded(span(ev, "reference flush", until="reference flushed"))
    for name, v, where, call in sent:
        if managers and call.rsplit(".", 1)[0] not in managers:
            return V("datapoints", "client", "the datapoint %s is not handed to the client that was given the destinations" % name, where)
    a, b = sorted(x[0] for x in sent), sorted(x[0] for x in ref)
    if a != b:
        missing, extra = minus(b, a), minus(a, b)
        return V("datapoints", "names", "a processor of the configured kind with the same messages flushes %s, the service %s; missing: %s, in addition: %s" % (
            len(b), len(a), missing[:6], extra[:6]))
    internal = "statsd." if o["statsd-compliance"] != const(0) else ("statsd" if o["prefix"] == NONE else o["prefix"][1])
    internal = internal if internal.endswith(".") else (internal + "." if internal else "") + (o["instance-name"][1] or "node9") + "."
    values = {}
    for name, v in ref:
        values.setdefault(name, []).append(v)
    for name, v, where, call in sent:
        if name.startswith(internal):
            continue
        vs = values[name]
        if is_const(v) and all(is_const(x) for x in vs) and all(x[1] != v[1] for x in vs):
            return V("datapoints", "value", "%s is %s instead of %s" % (name, show(v), show(vs[0])), where)
    # pages
    if o.get("http-port", NONE) != NONE:
        evs = span(ev, "page", "list_metrics", "served")
        d = calls(evs, "dumps")
        want = marks(ev, "reference names")[0].args[0]
        if len(d) == 1 and d[0].args and d[0].args[0][0] == "dict":
            got = dict((k[1], v) for k, v in d[0].args[0][1:] if is_const(k)).get("names")
            x, y = strings(got), strings(want)
            if x is not None and y is not None and sorted(set(x)) != sorted(set(y)):
                return V("pages", "list_metrics", "the metric list has %s instead of %s" % (sorted(x), sorted(y)), d[0].where)
        evs = span(ev, "page", "status", "served")
        d = calls(evs, "dumps")
        if len(d) == 1 and d[0].args and d[0].args[0][0] == "dict":
            got = dict((k[1], v) for k, v in d[0].args[0][1:] if is_const(k))
            v = got.get("flush_interval")
            if v is not None and (is_const(v) or v[0] == "sym") and v != o["flush-interval"]:
                return V("pages", "status", "the status page shows the flush interval %s instead of %s" % (show(v), show(o["flush-interval"])), d[0].where)
            if got.get("flush_time") == const(0):
                return V("pages", "status", "the status page shows no flush time after a flush", d[0].where)
    rep.ok("wired", told)
    return True


def minus(a, b):
    b = list(b)
    out = []
    for x in a:
        if x in b:
            b.remove(x)
        else:
            out.append(x)
    return out


def strings(v):
    if v is None or v[0] not in ("list", "tuple", "setc") or not all(is_const(x) for x in v[1:]):
        return None
    return [x[1] for x in v[1:]]


BASE = {"flush-interval": const(10000), "instance-name": const("web1"), "prefix": const("pfx"), "statsd-compliance": const(1),
        "monitor-message": const(PING), "monitor-response": const(PONG)}


def configurations(ctx):
    C = lambda *x: [const(y) for y in x]
    some = [{}]
    port, http = {"listen-tcp-port": opt("listen-tcp-port")}, {"http-port": opt("http-port")}
    for c in (1, 0):
        for d in (0, 1):
            k = {"statsd-compliance": const(c), "dump-mode": const(d)}
            some += [k, dict(k, **port), dict(k, **http), dict(k, plugin_sli=SLI, **port),
                     dict(k, routing=const("path_like *drop => drop"), **port)]
        k = {"statsd-compliance": const(c)}
        some += [dict(k, prefix=NONE), dict(k, prefix=const("")), dict(k, **{"instance-name": NONE}), dict(k, prefix=const("other.one"), **http)]
        some += [dict(k, report=const(x)) for x in ("process", "reactor", "net, io", "system,reactor,process", "unknown")]
        some += [dict(k, **{"flush-interval": const(250)})]
    some += [{"hosts": C(*h), "ports": C(*p), "names": C(*n)} for h, p, n in (
        (["h1"], [], []), (["h1"], [1], []), (["h1"], [], ["a"]), (["h1", "h2"], [1], []), (["h1", "h2"], [1, 2], ["a"]),
        (["h1", "h2", "h3"], [1, 2], ["a", "b"]), (["h1", "h2", "h3"], [1, 2, 3], ["a", "b", "c"]), (["h1", "h1"], [1, 2], []), (["h1", "h2"], [], ["a", "b"]))]
    some += [dict(http, **port), dict(http, report=const("process,counter,io,net,system,reactor"), **port)]
    if ctx.thorough:
        for c in (1, 0):
            for d in (0, 1):
                for t in (0, 1):
                    for h in (0, 1):
                        for rep in (None, "process, reactor", "system"):
                            for rt in ("", "path_like *drop => drop"):
                                for n in (1, 3):
                                    k = {"statsd-compliance": const(c), "dump-mode": const(d), "routing": const(rt), "report": const(rep), "plugin_sli": SLI,
                                         "hosts": C(*["h%d" % i for i in range(n)]), "flush-interval": const(1500)}
                                    k.update(port if t else {})
                                    k.update(http if h else {})
                                    some.append(k)
    seen, out = set(), []
    for x in some:
        if repr(sorted(x.items())) not in seen:
            seen.add(repr(sorted(x.items())))
            out.append(dict(BASE, **x))
    return out


def run(ctx, rep):
    cs = configurations(ctx)
    k = max(1, len(cs) // 16)
    ctx.pmap(lambda js, rp: [one(ctx, rp, o) for o in js], [cs[i:i + k] for i in range(0, len(cs), k)])


def one(ctx, rep, o):
    I = stubbed(ctx)
    told = label({k: v for k, v in o.items() if BASE.get(k) != v})
    for r in ctx.explore(I, scenario(ctx, o)):
        if r.kind == "undecided":
            rep.undecided("wired", told, r.value)
            continue
        p = Point(random.Random(3), {})
        try:
            if on_path(r, p) is False and r.kind == "raise":
                continue
            if r.kind == "raise":
                if any(not atom_timed(a) for a, v in r.facts.log):
                    rep.undecided("wired", told, r.value)
                else:
                    rep.violation("wired", "createService", "with %s: %s" % (told, r.value), getattr(r.value, "where", None), path_text(r))
                continue
            judge_path(rep, o, r)
        except (NoValue, Unknown) as e:
            rep.undecided("wired", told, e)


def atom_timed(a):
    return "now#" in show(a)
