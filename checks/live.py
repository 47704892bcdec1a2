"""The service that createService returns, driven from outside in steps, over symbolic options: messages arrive,
every periodic task runs once, pages are asked for."""
from checks.c17 import *


class Gave(object):
    """What came out of one step."""

    def __init__(self, op, events, state):
        self.op, self.events, self.state = op, events, state

    def sent(self):
        """[(name term, value term, timestamp term, where)] handed to carbon."""
        no_loops(self.events, "sendDatapoint")
        out = []
        for e in calls(self.events, "sendDatapoint"):
            a = e.args
            if len(a) != 2 or a[1][0] != "tuple" or len(a[1]) != 3:
                raise Unknown("what is sent to carbon")
            out.append((a[0], a[1][2], a[1][1], e.where))
        return out

    def tasks(self):
        return [(e.args[1], span(self.events, "task", e.args[0][1], "task-end") or []) for e in marks(self.events, "task")]

    def page(self):
        """(response code term, body term, {key: value} if the body is JSON of a dict with known keys, error) of a page."""
        code = const(200)
        no_loops(self.events, "setResponseCode")
        for e in calls(self.events, "setResponseCode"):
            code = e.args[0] if e.args else ("?",)
        body, data = None, None
        for e in self.events:
            if e.kind == "mark" and e.what == "served":
                body = e.args[0]
            if e.kind == "mark" and e.what == "failed":
                return code, None, None, e
        if body is not None:
            for e in all_events(self.events):
                if e.kind == "call" and callname(e).split(".")[-1] in ("dumps", "encode") and e.ret == body and e.args and e.args[-1][0] == "dict":
                    if not all(is_const(k) for k, v in e.args[-1][1:]):
                        raise Unknown("the keys of a page")
                    data = {k[1]: v for k, v in e.args[-1][1:]}
        return code, body, data, None


def fetch(I, site, path, req):
    res = I.getattr(site, "resource", None)
    todo = list(path)
    while todo and (not is_inst(I, res) or not I.test(I.getattr(res, "isLeaf", None))):
        if not is_inst(I, res):
            break           # a resource of somebody else's: what it does with the rest of the path is its own matter
        res = I.call(I.getattr(res, "getChildWithDefault", None), [todo.pop(0), req], {}, None)
    if not is_inst(I, res):
        return res
    return I.call(I.getattr(res, "render", None), [req], {}, None)


def unserializable(I, v, depth=0):
    """The kind of something in a value that JSON cannot express, if any."""
    if not isinstance(v, tuple) or not v or depth > 6:
        return None
    if v[0] == "obj" and v[1] in I.st.heap:
        o = I.st.heap.peek(v[1])
        if o.kind in ("set", "deque", "inst"):
            return o.kind if o.kind != "inst" else o.cls.split(".")[-1]
        parts = [o.content] if o.content is not None else list((o.entries or {}).values())
        return next((x for x in (unserializable(I, q, depth + 1) for q in parts) if x), None)
    if v[0] in ("setc", "setof", "gen", "fn", "bm", "meth"):
        return {"gen": "generator"}.get(v[0], "set" if "set" in v[0] else "function")
    if v[0] in ("list", "tuple"):
        return next((x for x in (unserializable(I, q, depth + 1) for q in v[1:]) if x), None)
    return None


def dumps(I, a, kw, n):
    bad = unserializable(I, a[0]) if a and "default" not in kw else None
    if bad:
        I.raise_("TypeError", n, "a %s is not JSON serializable" % bad)
    r = ("ret", I.fresh(), "json.dumps", "str")
    I.event("call", "json.dumps", a, kw, node=n, ret=r)
    return r


def live(ctx, o, steps, plugins=None):
    """A scenario; o: options (see create), steps: ("msg", term), ("line", term), "tasks", ("get", [terms])."""
    def run(I, root, d, pending):
        m = lambda x, name, *a: I.call(I.getattr(x, name, None), list(a), {}, None)
        m(root, "startService")
        handlers = {}
        for i in instances(I, I.st.heap, "ListeningPort"):
            h = attr(I, I.st.heap, i, "handler")
            handlers.setdefault("udp" if attr(I, I.st.heap, i, "kind") == const("udp") else "http" if is_inst(I, h, "Site") else "tcp", h)
        if "udp" in handlers:
            I.setattr(handlers["udp"], "transport", sym("cfg:udp", "obj"), None)
        tcp = None

        def settle():
            while pending:
                f, a, kw = pending.pop(0)
                I.call(f, a, kw, None)
        for k, op in enumerate(steps):
            I.event("mark", "step", [const(k)])
            if op == "tasks":
                for i in [i for i in instances(I, I.st.heap, "LoopingCall") if attr(I, I.st.heap, i, "running") == TRUE]:
                    I.event("mark", "task", [const(i), attr(I, I.st.heap, i, "interval")])
                    I.call(attr(I, I.st.heap, i, "f"), [], {}, None)
                    settle()
                    I.event("mark", "task-end")
            elif op[0] == "msg":
                m(handlers["udp"], "datagramReceived", op[1], ("tuple", sym("cfg:host", "str"), sym("cfg:port", "int")))
                settle()
            elif op[0] == "line":
                if tcp is None:
                    tcp = m(handlers["tcp"], "buildProtocol", sym("cfg:address", "obj"))
                    I.setattr(tcp, "transport", sym("cfg:tcp", "obj"), None)
                m(tcp, "lineReceived", op[1])
                settle()
            elif op[0] == "get":
                try:
                    v = fetch(I, handlers["http"], op[1], sym("cfg:request", "obj"))
                    I.event("mark", "served", [v])
                except PyRaise as e:
                    I.event("mark", "failed", [const(str(e))])
            I.event("mark", "stepped", [const(k)])

    def sc(I):
        Watch().install(I)
        d = I.new_dict()
        I.setitem(d, const("destinations.x:1"), const(4), None)
        I.cfg.consts["carbon.instrumentation.stats"] = d
        pending = []

        def later(I, base, a, kw, n):
            pending.append((a[1], list(a[2:]), kw))
            return sym("cfg:delayed", "obj")

        def coiterate(I, base, a, kw, n):
            drain(I, a[0])
            return sym("cfg:done", "obj")
        I.cfg.opaque_methods["callLater"] = later
        I.cfg.ext["json.dumps"] = dumps
        I.cfg.opaque_methods["coiterate"] = coiterate
        return create(ctx, o, sym("cfg:reactor", "obj"), lambda I, root, d: run(I, root, d, pending), plugins)(I)
    return sc


def gave(r, steps):
    return [Gave(op, span(r.events, "step", k, "stepped") or [], r.state) for k, op in enumerate(steps)]


def text(v):
    return v if isinstance(v, str) else None


SERVER = {"instance-name": const("web1"), "prefix": const("pfx"), "statsd-compliance": const(1), "monitor-message": const(PING), "monitor-response": const(PONG),
          "http-port": opt("http-port")}


def internal_prefix(o):
    return "statsd." if o["statsd-compliance"] != const(0) else "pfx.web1."
