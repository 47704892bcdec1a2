"""C10: the plain UDP client is interpreted over all sequences of up to four connections, disconnections
and writes with a socket whose send may succeed or fail in each way an operating system reports, and
the Twisted client over sequences of writes with a transport that may refuse each of them; on every
path the write must return, the socket be non-blocking before it is used, no blocking call be made,
and the callback be called once with the result of the send, or None."""
import itertools
from checks.service import *
from checks import c11

ASSUMPTIONS = ["a send fails with socket.error or one of its kinds; a transport may also raise OverflowError or TypeError", "a datagram larger than the protocol allows is the caller's error"]
TECHNIQUE = "static analysis: abstract interpretation of the clients with failing sends; exceptional paths and event order checked"

FAILS = ["socket.error", "socket.gaierror", "socket.timeout", "socket.herror"]
TFAILS = ["OverflowError", "TypeError", "socket.error", "socket.gaierror"]
HOST, PORT = sym("cfg:host", "str"), sym("cfg:port", "int")
SENDS = ("sendto", "send", "sendall", "sendmsg")
BLOCKING = ("getaddrinfo", "gethostbyname", "gethostbyname_ex", "gethostbyaddr", "create_connection", "sleep", "select", "recv", "recvfrom", "join", "acquire", "wait", "accept")


def udp(ctx, host, seq):
    def sc(I):
        def send(I, base, args, kw, node):
            ret = ("ret", I.fresh(), "sendto", "int")
            ev = I.event("call", ("attr", base, "sendto"), args, kw, node=node, ret=ret)
            j = I.choose(len(FAILS) + 1)
            if j:
                ev.extra = "raises"
                raise PyRaise(FAILS[j - 1], node, "the operating system refuses a send", where=I.where(node))
            return ret
        I.cfg.opaque_methods["sendto"] = send
        def resolve(I, args, kw, node):
            ret = I.new_list([("tuple", const(2), const(2), const(17), const(""), ("tuple", sym("resolved", "str"), sym("resolved port", "int")))])
            I.event("call", ("x", "socket.getaddrinfo"), args, kw, node=node, ret=ret)
            if I.choose(2):
                raise PyRaise("socket.gaierror", node, "the address cannot be resolved", where=I.where(node))
            return ret
        I.cfg.ext["socket.getaddrinfo"] = resolve

        def made(I, args, kw, node):
            return sym("socket%d" % I.fresh(), "obj")
        I.cfg.ext["socket.socket"] = made
        c = ctx.need_class(I, "txstatsd.client", "UdpStatsDClient")
        I.event("mark", "made")
        o = I.call(c, {"both": [HOST, PORT], "none": [], "host": [HOST], "port": [NONE, PORT]}[host], {}, None)
        for k, op in enumerate(seq):
            I.event("mark", "m%d" % k)
            I.call(I.getattr(o, op, None), [sym("data%d" % k, "str")] if op == "write" else [], {}, None)
        I.event("mark", "end")
    return sc


def run(ctx, rep):
    jobs = []
    n = 5 if ctx.thorough else 4
    for host in ("both", "none", "host", "port"):
        for k in range(1, n + 1):
            for s in itertools.product(("connect", "disconnect", "write"), repeat=k):
                if s[-1] == "write" or k == 1:
                    if s.count("write") <= 2 and (host == "both" or k < 4):
                        jobs.append(("udp", host, list(s)))
    tw = [["connect", "resolve", "write", "write"], ["write", "connect", "resolve"], ["write", "write", "resolve", "connect", "write"], ["resolve", "connect", "disconnect", "write", "connect"],
          ["resolve", "write", "connect", "write"]]
    jobs += [("twisted", cb, s) for s in tw for cb in (True, False)]
    jobs += [("raising", s) for s in tw[:3]]
    ctx.pmap(lambda js, rp: [dict(udp=plain, twisted=twisted, raising=raising)[j[0]](ctx, rp, *j[1:]) for j in js], [jobs[i:i + 6] for i in range(0, len(jobs), 6)])


def plain(ctx, rep, host, seq):
    I = stubbed(ctx)
    for r in ctx.explore(I, udp(ctx, host, seq)):
        told = "client with %s: %s" % ({"both": "an address", "none": "no address", "host": "no port", "port": "no host"}[host], ", ".join(seq))
        if r.kind == "undecided":
            rep.undecided("returns", told, r.value)
            continue
        began = any(e.kind == "mark" and e.what == "m0" for e in r.events)
        if r.kind == "raise" and not began:
            continue                 # an address that cannot be resolved is refused when the client is made
        if r.kind == "raise":
            bad = max(k for k in range(len(seq)) if any(e.kind == "mark" and e.what == "m%d" % k for e in r.events))
            if seq[bad] == "write" or getattr(r.value, "definite", True):
                failed = [e.extra for e in r.events if e.extra == "raises"]
                rep.violation("raises", seq[bad] + (":refused" if failed else ""), "%s of a %s raises %s" % (seq[bad], told, r.value), getattr(r.value, "where", None), path_text(r))
            continue
        rep.ok("returns", told)
        ready, sockets = {}, None
        for k, op in enumerate(seq):
            evs = [e for e in all_events(after_mark(r.events, "m%d" % k)) if e.kind == "call"]
            nsend = 0
            for e in evs:
                nm = callname(e)
                last = nm.split(".")[-1]
                on = e.what[1] if isinstance(e.what, tuple) and e.what[0] == "attr" else None
                if last in ("setblocking", "settimeout") and on is not None:
                    ready[on] = bool(e.args) and is_const(e.args[0]) and e.args[0][1] is not None and not e.args[0][1]
                elif last in SENDS or last in ("connect", "connect_ex") and on is not None and "socket" in nm:
                    nsend += 1
                    if not ready.get(on):
                        rep.violation("non-blocking", op, "%s: %s is called on a socket that may block" % (told, last), e.where, path_text(r))
                        return
                    to = e.args[-1] if len(e.args) > 1 else None
                    if last == "sendto" and to is not None and to[0] == "tuple" and HOST in to:
                        rep.violation("non-blocking", "resolve", "%s: the host name is resolved by every send" % told, e.where, path_text(r))
                        return
                elif last in BLOCKING and op == "write":
                    rep.violation("non-blocking", "%s:%s" % (op, last), "%s: a write calls %s, which may block" % (told, nm), e.where, path_text(r))
                    return
            if op == "write":
                up = host == "both" and "connect" in seq[:k] and (seq[:k][::-1].index("connect") < (seq[:k][::-1].index("disconnect") if "disconnect" in seq[:k] else k))
                if nsend != (1 if up else 0):
                    rep.violation("sends", "write", "%s: write %d sends %d times" % (told, k + 1, nsend), None, path_text(r))
                    return
                if up:
                    s = [e for e in evs if callname(e).split(".")[-1] == "sendto"]
                    if s and s[0].args and s[0].args[0] != sym("data%d" % k, "str") and is_const(s[0].args[0]):
                        rep.violation("sends", "data", "%s: write %d sends %s" % (told, k + 1, show(s[0].args[0])), s[0].where, path_text(r))
                        return
        rep.ok("non-blocking", told)


def twisted(ctx, rep, callbacks, seq):
    def sc(I):
        def write(I, base, args, kw, node):
            if not show(base).startswith("transport"):
                return None
            ret = ("ret", I.fresh(), "write", "int")
            ev = I.event("call", ("attr", base, "write"), args, kw, node=node, ret=ret)
            j = I.choose(len(TFAILS) + 1)
            if j:
                ev.extra = "raises"
                raise PyRaise(TFAILS[j - 1], node, "the transport refuses a send", where=I.where(node))
            return ret
        I.cfg.opaque_methods["write"] = write
        return c11.scenario(ctx, seq, callbacks=None if callbacks else ())(I)
    I = stubbed(ctx)
    told = "Twisted client%s: %s" % ("" if callbacks else " without callbacks", ", ".join(seq))
    for r in ctx.explore(I, sc):
        if r.kind == "undecided":
            rep.undecided("returns", told, r.value)
            continue
        refused = [e for e in all_events(r.events) if e.extra == "raises"]
        if r.kind == "raise":
            rep.violation("raises", "twisted", "%s raises %s" % (told, r.value), getattr(r.value, "where", None), path_text(r))
            return
        sends = [e for e in all_events(r.events) if e.kind == "call" and callname(e).startswith("transport") and callname(e).endswith(".write")]
        cbs = [e for e in all_events(r.events) if e.kind == "call" and callname(e).startswith("callback")]
        if not callbacks:
            if cbs:
                rep.undecided("callback", told, "callbacks")
            rep.ok("returns", told)
            continue
        given = {}
        for e in cbs:
            given.setdefault(callname(e), []).append(e)
        for e in sends:
            d = show(e.args[0])
            if not d.startswith("data"):
                rep.undecided("callback", told, d)
                continue
            mine = given.pop("callback" + d[4:], [])
            how = "fails" if e.extra == "raises" else "succeeds"
            if len(mine) != 1:
                rep.violation("callback", "count:%s" % how, "%s: the callback of a send that %s is called %d times" % (told, how, len(mine)), e.where, path_text(r))
                return
            v = mine[0].args[0] if len(mine[0].args) == 1 else None
            if v is None:
                rep.violation("callback", "arguments", "%s: the callback is called with %d arguments" % (told, len(mine[0].args)), mine[0].where, path_text(r))
                return
            want = NONE if e.extra == "raises" else e.ret
            if v != want:
                if is_const(v) or v[0] == "ret":
                    rep.violation("callback", "result:%s" % how, "%s: the callback of a send that %s is given %s" % (told, how, show(v)), mine[0].where, path_text(r))
                    return
                rep.undecided("callback", told, show(v))
        for n, es in given.items():
            rep.violation("callback", "unsent", "%s: %s is called although its message was not sent" % (told, n), es[0].where, path_text(r))
            return
        rep.ok("callback", told)


def raising(ctx, rep, seq):
    """A callback that raises has been called all the same."""
    I = stubbed(ctx)
    for k in range(len(seq)):
        I.cfg.raisers["callback%d" % k] = TFAILS
    told = "Twisted client: %s, with callbacks that raise" % ", ".join(seq)
    for r in ctx.explore(I, c11.scenario(ctx, seq)):
        if r.kind == "undecided":
            rep.undecided("callback", told, r.value)
            continue
        n = {}
        for e in all_events(r.events):
            if e.kind == "call" and callname(e).startswith("callback"):
                n[callname(e)] = n.get(callname(e), 0) + 1
                if n[callname(e)] > 1:
                    rep.violation("callback", "again", "%s: %s is called again" % (told, callname(e)), e.where, path_text(r))
                    return
        rep.ok("callback", told)
