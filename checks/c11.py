"""C11: every sequence of up to five (thorough: six) writes, resolutions, connections and disconnections is interpreted
on the Twisted client made for a symbolic host, and its queue on sequences of writes at the limit; on
every path the sends of each step, their address, order and callbacks are compared with a reference queue."""
import itertools
from checks.service import *

ASSUMPTIONS = ["calls scheduled in the reactor are made once, in order, before the next step", "a host is resolved at most once"]
TECHNIQUE = "static analysis: typestate of the client over enumerated event sequences, interpreted with a symbolic host and symbolic messages"
M = "txstatsd.protocol"
HOST, PORT, IP = sym("cfg:host", "str"), sym("cfg:port", "int"), sym("resolved", "str")


def DATA(k):
    return sym("data%d" % k, "str")


def CB(k):
    return sym("callback%d" % k, "callable")


def resolved_later(ctx, I):
    """reactor.resolve() gives a Deferred; returns the list of those made."""
    made = []

    def resolve(I, base, args, kw, node):
        if show(base) != "cfg:reactor":
            return None
        import program
        d = I.call(I.lookup_global("stubs.twisted_model", "Deferred"), [], {}, None)
        I.event("call", ("attr", base, "resolve"), args, kw, node=node, ret=d)
        made.append(d)
        return d
    I.cfg.opaque_methods["resolve"] = resolve
    return made


def logged(I, args, kw, node):
    I.event("call", ("x", "twisted.python.log.err"), args, kw, node=node, ret=NONE)
    return NONE


def scenario(ctx, seq, made_by="create", given="both", callbacks=None):
    """given: the callbacks of the client; callbacks: the writes with one of their own (all)."""
    def sc(I):
        made = resolved_later(ctx, I)
        I.cfg.ext["twisted.python.log.err"] = logged
        c = ctx.need_class(I, M, "TwistedStatsDClient")
        f = I.getattr(c, "create", None) if made_by == "create" else c
        I.event("mark", "made")
        start = len(I.st.events)
        kw = {"reactor": sym("cfg:reactor", "obj")}
        if given != "none":
            kw["connect_callback"] = sym("cfg:connected", "callable") if given != "disconnect" else NONE
            kw["disconnect_callback"] = sym("cfg:disconnected", "callable") if given != "connect" else NONE
        o = I.call(f, [HOST, PORT], kw, None)
        settle(I, start)
        proto = I.call(ctx.need_class(I, M, "StatsDClientProtocol"), [o], {}, None)
        for k, op in enumerate(seq):
            I.event("mark", "m%d" % k)
            start = len(I.st.events)
            if op == "write":
                I.call(I.getattr(o, "write", None), [DATA(k)] + ([CB(k)] if callbacks is None or k in callbacks else []), {}, None)
            elif op == "connect":
                I.setattr(proto, "transport", sym("transport%d" % k, "obj"), None)
                I.call(I.getattr(proto, "startProtocol", None), [], {}, None)
            elif op == "reconnect":
                I.call(I.getattr(o, "connect", None), [], {}, None)
            elif op == "disconnect":
                I.call(I.getattr(proto, "stopProtocol", None), [], {}, None)
            elif op == "resolve":
                if made_by != "create":
                    if not any(e.kind == "mark" and e.what == "known" for e in I.st.events):
                        I.call(I.getattr(o, "host_resolved", None), [IP], {}, None)
                elif made:
                    I.call(I.getattr(made[0], "callback", None), [IP], {}, None)
            elif op == "fail" and made:
                I.call(I.getattr(made[0], "errback", None), [I.call(I.lookup_global("stubs.twisted_model", "Failure"), [sym("why", "obj")], {}, None)], {}, None)
            settle(I, start)
        I.event("mark", "end")
    return sc


def sequences(thorough):
    n = 6 if thorough else 5
    out = []
    for k in range(1, n + 1):
        for s in itertools.product(("write", "resolve", "connect", "disconnect"), repeat=k):
            if s.count("resolve") > 1 or "write" not in s or s[-1] == "disconnect":
                continue
            if k >= 4 and s.count("write") < 2:
                continue
            out.append(list(s))
    out += [["write", "reconnect", "resolve", "write", "connect"], ["resolve", "connect", "disconnect", "write", "reconnect", "connect"],
            ["connect", "write", "reconnect", "resolve", "reconnect", "write"], ["connect", "write", "write", "fail"], ["write", "fail", "connect", "write"],
            ["connect", "write", "write", "write", "resolve", "write"], ["resolve", "connect", "write", "disconnect", "write", "write", "connect", "write"]]
    return out


def run(ctx, rep):
    jobs = [("client", s, "create") for s in sequences(ctx.thorough)] + [("client", s, "class") for s in sequences(False) if len(s) <= 3]
    few = [s for s in sequences(False) if len(s) <= 4 and "disconnect" in s or len(s) <= 3 or "reconnect" in s]
    jobs += [("client", s, "create", "none") for s in few] + [("client", s, "create", g) for s in few if len(s) <= 4 for g in ("connect", "disconnect")]
    jobs += [("client", s, "create", g, w) for s in few if s.count("write") > 1 or len(s) <= 3 for g in ("both", "none")
             for w in ((), tuple(k for k, op in enumerate(s) if op == "write")[:1]) if w == () or s.count("write") > 1]
    jobs = [jobs[i:i + 12] for i in range(0, len(jobs), 12)]
    jobs += [[("queue", n, limit)] for limit in (0, 1, 3, None) for n in ((limit or 0) + 2, limit or 1)]
    jobs += [[("full",)]]
    ctx.pmap(lambda js, rp: [dict(client=one, queue=queue, full=full)[j[0]](ctx, rp, *j[1:]) for j in js], jobs)


def one(ctx, rep, seq, made_by, given="both", callbacks=None):
    I = stubbed(ctx)
    rs = ctx.explore(I, scenario(ctx, seq, made_by, given, callbacks))
    told = ", ".join(seq)
    if given != "both":
        told += " (%s)" % {"none": "no callbacks of the client", "connect": "no disconnect callback", "disconnect": "no connect callback"}[given]
    if callbacks is not None:
        told += " (%s)" % ("only the first write has a callback" if callbacks else "writes without callbacks")
    for r in rs:
        if r.kind == "undecided":
            rep.undecided("queued", told, r.value)
    for host, is_ip in (("stats.example.org", False), ("10.0.0.9", True)):
        if is_ip and "fail" in seq or is_ip and made_by != "create" and "resolve" in seq:
            continue
        env = {HOST: host, PORT: Fraction(8125), IP: "192.0.2.7"}
        for k, op in enumerate(seq):
            env[DATA(k)] = "message %d" % k
        hit = pick(rs, env, ctx.seed)
        if hit is None:
            rep.undecided("queued", told, "no path for %s" % host)
            continue
        r, p = hit
        if r.kind == "raise":
            bad = max([k for k in range(len(seq)) if any(e.kind == "mark" and e.what == "m%d" % k for e in r.events)] or [0])
            rep.violation("raises", seq[bad], "client for %s: %s of %s raises %s" % (host, seq[bad], told, r.value), getattr(r.value, "where", None), path_text(r))
            return
        try:
            if not follow(rep, "client for %s: %s" % (host, told), seq, r, p, is_ip, host, given, callbacks):
                return
        except (NoValue, Unknown) as e:
            rep.undecided("queued", told, e)
            return
        rep.ok("queued", "%s: %s" % (host, told))


def follow(rep, told, seq, r, p, is_ip, host, given, callbacks):
    resolved, tr, queue, informed = is_ip, None, [], 0
    for k, op in enumerate(["made"] + seq, -1):
        evs = [e for e in all_events(after_mark(r.events, "m%d" % k if k >= 0 else "made")) if e.kind == "call"]
        want = []
        if op == "write":
            if resolved and tr is not None:
                want = [(k, tr)]
            else:
                queue.append(k)
        elif op == "resolve":
            resolved = True
        elif op == "connect":
            tr = k
        elif op == "disconnect":
            tr = None
        if resolved and tr is not None:
            want = [(q, tr) for q in queue] + want
            queue = []
        at = "%s, at step %d (%s)" % (told, k + 1, op)
        sends = [e for e in evs if callname(e).startswith("transport") and callname(e).split(".")[-1] in ("write", "writeTo", "send", "sendto")]
        got = []
        for e in sends:
            data = value(p, e.args[0])
            got.append((int(data.split()[-1]) if data.startswith("message ") else data, int(callname(e).split(".")[0][9:])))
        where = sends[0].where if sends else None
        if got != want:
            said = lambda l: "[%s]" % ", ".join("%s to the transport of step %s" % ("message of step %d" % (m + 1) if isinstance(m, int) else repr(m), t + 1) for m, t in l)
            rule = "lost" if len(got) < len(want) else "early" if len(got) > len(want) else "order"
            rep.violation(rule, op, "%s: %s is sent instead of %s" % (at, said(got), said(want)), where, path_text(r))
            return False
        for e in sends:
            to = e.args[1] if len(e.args) > 1 else e.kw.get("addr")
            if to is None or to[0] != "tuple" or len(to) != 3:
                raise Unknown("address")
            a = (value(p, to[1]), value(p, to[2]))
            good = (host if is_ip else "192.0.2.7", Fraction(8125))
            if a != good:
                rep.violation("address", op, "%s: a message is sent to %s, resolved was %s" % (at, a, good), e.where, path_text(r))
                return False
        cbs = [e for e in evs if callname(e).startswith("callback")]
        exp = [("callback%d" % m, s.ret) for (m, t), s in zip(want, sends) if callbacks is None or m in callbacks]
        have = [(callname(e), e.args[0] if e.args else None) for e in cbs]
        if [h[0] for h in have] != [x[0] for x in exp]:
            if sorted(h[0] for h in have) != sorted(x[0] for x in exp):
                rep.violation("callback", op, "%s: the callbacks %s are called instead of %s" % (at, [h[0] for h in have], [x[0] for x in exp]), cbs[0].where if cbs else None, path_text(r))
                return False
        elif have != exp:
            bad = [h for h, x in zip(have, exp) if h != x][0]
            if bad[1] is None or is_const(bad[1]) or bad[1][0] in ("ret", "sym"):
                rep.violation("callback", "%s:result" % op, "%s: %s is given %s, not the result of its send" % (at, bad[0], show(bad[1]) if bad[1] else "nothing"), cbs[0].where, path_text(r))
                return False
            raise Unknown("callback given %s" % show(bad[1]))
        told_c = [e for e in evs if callname(e) == "cfg:connected"]
        informed += len(told_c)
        if informed != (1 if resolved and given in ("both", "connect") else 0):
            rep.violation("connected", op, "%s: the connect callback has been called %d times" % (at, informed), told_c[0].where if told_c else None, path_text(r))
            return False
    return True


def queue(ctx, rep, n, limit):
    """The queue itself: the oldest messages up to the limit, in order, once."""
    if limit is None and n < 5:
        n = 4

    def sc(I):
        c = ctx.need_class(I, M, "DataQueue")
        q = I.call(c, [const(limit)] if limit is not None else [], {}, None)
        out = []
        for part in range(2):
            for k in range(n):
                I.call(I.getattr(q, "write", None), [DATA(10 * part + k), CB(10 * part + k)], {}, None)
            out.append(I.snap(I.call(I.getattr(q, "flush", None), [], {}, None)))
        out.append(I.snap(I.call(I.getattr(q, "flush", None), [], {}, None)))
        return ("tuple",) + tuple(out)
    I = stubbed(ctx)
    for r in ctx.explore(I, sc):
        told = "a queue with limit %s after %d writes" % (limit, n)
        if r.kind == "undecided":
            rep.undecided("queue", told, r.value)
            continue
        if r.kind == "raise":
            rep.violation("queue", "raise", "%s raises %s" % (told, r.value), None, path_text(r))
            continue
        for part, v in enumerate(r.value[1:]):
            items = list(v[1:]) if v[0] in ("tuple", "list") else None
            if items is None or any(x[0] not in ("tuple", "list") for x in items):
                rep.undecided("queue", told, show(v))
                continue
            m = n if limit is None else min(n, limit)
            want = [(DATA(10 * part + k), CB(10 * part + k)) for k in range(m)] if part < 2 else []
            got = [tuple(x[1:]) for x in items]
            if got != want:
                rep.violation("queue", "kept", "%s gives %s instead of %s" % (told, [show(x[0]) for x in got], [show(x[0]) for x in want]), None, path_text(r))
            else:
                rep.ok("queue", told)


def full(ctx, rep):
    """A client that cannot send keeps at least a thousand messages, and what it drops is the newest."""
    N = 1003

    def sc(I):
        made = resolved_later(ctx, I)
        I.cfg.ext["twisted.python.log.err"] = logged
        c = ctx.need_class(I, M, "TwistedStatsDClient")
        o = I.call(I.getattr(c, "create", None), [const("stats.example.org"), PORT], {"reactor": sym("cfg:reactor", "obj")}, None)
        for k in range(N):
            I.call(I.getattr(o, "write", None), [const("message %d" % k)], {}, None)
        I.call(I.getattr(o, "connect", None), [sym("transport0", "obj")], {}, None)
        start = len(I.st.events)
        I.call(I.getattr(made[0], "callback", None), [IP], {}, None)
        for e in list(I.st.events[start:]):
            s = scheduled(e)
            if s:
                I.call(s[0], s[1], s[2], None)
    I = stubbed(ctx, unroll=3 * N)
    for r in ctx.explore(I, sc):
        if r.kind != "ok":
            rep.undecided("queue", "full client", r.value)
            continue
        sends = calls(r.events, "transport0.write")
        got = [e.args[0][1] if is_const(e.args[0]) else None for e in sends]
        if None in got:
            rep.undecided("queue", "full client", "data of a send")
            continue
        nums = [int(x.split()[-1]) for x in got]
        if nums != list(range(len(nums))):
            i = next(i for i, x in enumerate(nums) if x != i)
            rep.violation("queue", "dropped", "of %d messages written before the host is resolved, message %d is sent in place %d" % (N, nums[i], i), sends[i].where, path_text(r))
        elif len(nums) < 1000:
            rep.violation("queue", "limit", "of %d messages written before the host is resolved only %d are sent" % (N, len(nums)), sends[0].where if sends else None, path_text(r))
        else:
            rep.ok("queue", "%d of %d messages kept, in order" % (len(nums), N))
