"""createService() over arbitrary option values, with Twisted's classes as described in stubs/."""
from checks.common import *

S_ = "twisted.application.service."
T_ = "twisted.internet."
STUBS = {S_ + "Service": "Service", S_ + "MultiService": "MultiService",
         "twisted.application.internet.UDPServer": "UDPServer", "twisted.application.internet.TCPServer": "TCPServer",
         "twisted.application.internet.TimerService": "TimerService",
         T_ + "task.LoopingCall": "LoopingCall", T_ + "defer.Deferred": "Deferred", T_ + "defer.succeed": "succeed",
         T_ + "defer.fail": "fail", T_ + "defer.maybeDeferred": "maybeDeferred", T_ + "defer.execute": "execute",
         "twisted.python.failure.Failure": "Failure", T_ + "protocol.Protocol": "Protocol",
         T_ + "protocol.DatagramProtocol": "DatagramProtocol", T_ + "protocol.ReconnectingClientFactory": "ReconnectingClientFactory",
         T_ + "protocol.ClientFactory": "ClientFactory", "threading.Thread": "Thread",
         "twisted.web.resource.Resource": "Resource", "twisted.web.resource.NoResource": "NoResource",
         "twisted.web.resource.ErrorPage": "ErrorPage", "twisted.web.resource.ForbiddenResource": "ForbiddenResource",
         "twisted.web.server.Site": "Site", "Queue.Empty": "QueueEmpty"}
STUB = "stubs.twisted_model."


def stubbed(ctx, *without, **kw):
    I = ctx.interp(stubs={k: v for k, v in STUBS.items() if v not in without}, **kw)
    return I


def is_inst(I_or_heap, v, cls=None):
    heap = getattr(getattr(I_or_heap, "st", None), "heap", I_or_heap)
    return v[0] == "obj" and v[1] in heap and heap.peek(v[1]).kind == "inst" and (cls is None or heap.peek(v[1]).cls.endswith(cls))


def instances(I, heap, cls, base=None):
    """Objects of a class or its subclasses, by dotted name or suffix, in the order they were made."""
    out = []
    for i in sorted(heap):
        o = heap.peek(i)
        if o.kind == "inst" and any(cls == q or q.endswith("." + cls) for q in lineage(I, o.cls)):
            out.append(i)
    return out


def lineage(I, q):
    out = []
    for c in I.mro(q):
        out.append(getattr(c, "q", None) or (c[1] if isinstance(c, tuple) else str(c)))
    return out


def attr(I, heap, i, name):
    """The attribute of an object, or of its class."""
    o = heap.peek(i)
    if name in o.attrs:
        return o.attrs[name]
    return I.class_lookup(o.cls, name)


def listed(heap, v):
    """The elements of a list or tuple with known elements."""
    if v[0] in ("tuple", "list"):
        return list(v[1:])
    if v[0] == "obj" and v[1] in heap and heap.peek(v[1]).content is not None:
        c = heap.peek(v[1]).content
        if c[0] == "list":
            return list(c[1:])
    return None


INTS = ("flush-interval", "listen-port", "max-queue-size", "max-datapoints-per-message")
STRS = ("monitor-message", "monitor-response", "instance-name", "prefix")


def opt(name):
    return sym("opt:" + name, "int" if name in INTS or name.endswith("port") else "str")


DEFAULTS = {"dump-mode": const(0), "statsd-compliance": const(1), "routing": const(""), "report": const(None), "listen-tcp-port": const(None),
            "http-port": const(None), "hosts": [], "ports": [], "names": []}


def create(ctx, options=None, reactor=None, after=None, plugins=None):
    """A scenario that calls createService; options: overrides of DEFAULTS; after(I, root, options)."""
    vals = {n: opt(n) for n in INTS + STRS}
    vals.update(DEFAULTS)
    vals.update(options or {})

    def sc(I):
        I.cfg.absent_attrs.add("twisted.python.log.info")
        I.cfg.ext["twisted.plugin.getPlugins"] = lambda I, a, k, n: I.new_list((plugins or bundled_plugins)(I))
        d = I.new_dict()
        for n, v in vals.items():
            if n in ("hosts", "ports", "names"):
                n, v = "carbon-cache-" + n[:-1], I.new_list(list(v))
            I.setitem(d, const(n), v, None)
        f = ctx.need_function(I, "txstatsd.service", "createService")
        I.event("mark", "create")
        kw = {} if reactor is None else {"reactor": reactor}
        root = I.call(f, [d], kw, None)
        I.event("mark", "created", [root, d])
        if after is not None:
            after(I, root, d)
        return root
    return sc
