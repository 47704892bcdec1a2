"""C15: every sequence of up to five (thorough: seven) pauses, resumptions and writes is interpreted on the
redirect's protocol, with a symbolic line for each write, and sequences of connections, losses and
stops on its factory and service; writes to the transports are evaluated for lines with every kind of
ending and compared with the contract."""
import itertools
from checks.service import *

ASSUMPTIONS = ["a redirected message is not empty", "the transport calls pauseProducing, resumeProducing and stopProducing in any order"]
TECHNIQUE = "static analysis: typestate of the redirect protocol, factory and service over enumerated event sequences, interpreted with symbolic lines"
M = "txstatsd.server.router"


def LINE(i):
    return sym("line%d" % i, "str")


LINES = ["a:1|c", "a:1|c\r\n", "a:1|c\r", "x", "gorets:3|ms|@0.1", "\r\n", "\r", "b:1|c\r\nc:1|c", "z:1|c "]


def framed(s):
    return s if s.endswith("\r\n") else s + "\n" if s.endswith("\r") else s + "\r\n"


def scenario(ctx, seq, plain=False):
    """plain: a factory without a connection callback; seq: operations on the factory, its service and its current protocol."""
    def sc(I):
        f = I.call(ctx.need_class(I, M, "TCPRedirectClientFactory"), [] if plain else [sym("cfg:connected", "callable")], {"reactor": sym("cfg:reactor", "obj")}, None)
        s = I.call(ctx.need_class(I, M, "TCPRedirectService"), [sym("cfg:host", "str"), sym("cfg:port", "int"), f], {"reactor": sym("cfg:reactor", "obj")}, None)
        proto, n = None, 0
        for k, op in enumerate(seq):
            I.event("mark", "m%d" % k)
            start = len(I.st.events)
            if op == "start":
                I.call(I.getattr(s, "startService", None), [], {}, None)
            elif op == "stop":
                I.call(I.getattr(s, "stopService", None), [], {}, None)
            elif op == "connect":
                proto = I.call(I.getattr(f, "buildProtocol", None), [sym("addr", "obj")], {}, None)
                I.call(I.getattr(proto, "makeConnection", None), [sym("transport%d" % n, "obj")], {}, None)
                n += 1
            elif op == "lose":
                I.call(I.getattr(proto, "connectionLost", None), [sym("reason", "obj")], {}, None)
                I.call(I.getattr(f, "clientConnectionLost", None), [sym("connector", "obj"), sym("reason", "obj")], {}, None)
            elif op == "fail":
                I.call(I.getattr(f, "clientConnectionFailed", None), [sym("connector", "obj"), sym("reason", "obj")], {}, None)
            elif op == "pause":
                I.call(I.getattr(proto, "pauseProducing", None), [], {}, None)
            elif op == "resume":
                I.call(I.getattr(proto, "resumeProducing", None), [], {}, None)
            elif op == "halt":
                I.call(I.getattr(proto, "stopProducing", None), [], {}, None)
            elif op == "write":
                I.call(I.getattr(f, "write", None), [LINE(k)], {}, None)
            settle(I, start)
            I.event("mark", "state%d" % k, [state(I, f, proto)])
        I.event("mark", "end")
    return sc


def state(I, f, proto):
    """(delay at its start, still trying, dropped)"""
    h = I.st.heap
    out = []
    for o, n in ((f, "delay"), (f, "initialDelay"), (f, "continueTrying"), (proto, "dropped")):
        v = None
        if o is not None and is_inst(h, o):
            try:
                v = attr(I, h, o[1], n)
            except Exception:
                v = None
        out.append(v if isinstance(v, tuple) and v and isinstance(v[0], str) else const(None))
    return ("tuple",) + tuple(out)


def sequences(thorough):
    n = 7 if thorough else 5
    out = []
    for k in range(1, n + 1):
        for s in itertools.product(("pause", "resume", "write"), repeat=k):
            if k < n or s[-1] == "write":
                out.append(["connect"] + list(s))
    tails = [["start", "stop"], ["stop"], ["start", "fail", "stop"], ["start", "fail", "fail", "connect", "write", "stop"], ["start", "connect", "stop"],
             ["write", "start", "write", "connect", "write"], ["start", "connect", "write", "lose", "connect", "write", "stop", "lose"],
             ["start", "connect", "pause", "write", "halt", "lose", "connect", "write", "pause", "write", "resume", "write"],
             ["start", "connect", "halt", "lose", "fail", "fail", "connect", "write", "stop", "lose"], ["start", "connect", "lose", "connect", "lose", "connect", "write", "stop"],
             ["start", "connect", "stop", "lose", "start", "connect", "write", "stop"], ["start", "connect", "pause", "lose", "connect", "resume", "write"],
             ["start", "connect", "halt", "write", "resume", "write"]]
    return [(s, False) for s in out + tails] + [(s, True) for s in tails + [s for s in out if len(s) <= 4]]


def run(ctx, rep):
    jobs = sequences(ctx.thorough)
    size = 20
    ctx.pmap(lambda ss, rp: [one(ctx, rp, *s) for s in ss], [jobs[i:i + size] for i in range(0, len(jobs), size)])


def one(ctx, rep, seq, plain):
    I = stubbed(ctx)
    rs = ctx.explore(I, scenario(ctx, seq, plain))
    told = ", ".join(seq) + (" (without a callback)" if plain else "")
    writes = [k for k, o in enumerate(seq) if o == "write"]
    for r in rs:
        if r.kind == "undecided":
            rep.undecided("recovers", told, r.value)
    n = 0
    for t, base in enumerate(LINES if writes else LINES[:1]):
        env = {LINE(k): LINES[(t + 2 * i) % len(LINES)] for i, k in enumerate(writes)}
        hit = pick(rs, env, ctx.seed + t)
        if hit is None:
            rep.undecided("recovers", told, "no path")
            continue
        r, p = hit
        if r.kind == "raise":
            bad = max([k for k in range(len(seq)) if any(e.kind == "mark" and e.what == "m%d" % k for e in r.events)] or [0])
            rep.violation("raises", seq[bad], "after %s: %s raises %s" % (", ".join(seq[:bad]), seq[bad], r.value), getattr(r.value, "where", None), path_text(r))
            return
        try:
            if not follow(rep, told, seq, r, p, env):
                return
            n += 1
        except (NoValue, Unknown) as e:
            rep.undecided("recovers", told, e)
            return
    if n:
        rep.ok("recovers", "%s: %d assignments" % (told, n), n=n)


def follow(rep, told, seq, r, p, env):
    paused, dropped, conn, connected, first = False, 0, -1, False, True
    for k, op in enumerate(seq):
        evs = [e for e in all_events(after_mark(r.events, "m%d" % k)) if e.kind == "call"]
        st = [e for e in r.events if e.kind == "mark" and e.what == "state%d" % k]
        vals = [x[1] if is_const(x) else None for x in st[0].args[0][1:]] if st else [None] * 4
        out = [e for e in evs if callname(e).startswith("transport") and callname(e).split(".")[-1] in ("write", "writeSequence")]
        where = out[0].where if out else None
        at = "%s of %s" % (op, told)
        if op != "write" and out:
            rep.violation("written", op, "%s writes %r" % (at, value(p, out[0].args[0])), where, path_text(r))
            return False
        if op == "connect":
            conn, paused, dropped, connected = conn + 1, False, 0, True
            reg = [e for e in evs if callname(e) == "transport%d.registerProducer" % conn]
            if len(reg) != 1:
                rep.violation("producer", "count", "%s registers as a producer %d times" % (at, len(reg)), None, path_text(r))
                return False
            s = reg[0].args[1] if len(reg[0].args) > 1 else reg[0].kw.get("streaming")
            if s is None or is_const(s) and not s[1]:
                rep.violation("producer", "streaming", "%s registers as a pulling producer" % at, reg[0].where, path_text(r))
                return False
            if vals[0] is not None and vals[1] is not None and vals[0] != vals[1]:
                rep.violation("delay", "reset", "%s leaves the reconnection delay at %s" % (at, vals[0]), None, path_text(r))
                return False
            told_cb = [e for e in evs if callname(e) == "cfg:connected"]
            if len(told_cb) > (1 if first else 0):
                rep.violation("ready", "again", "%s calls the connection callback again" % at, told_cb[0].where, path_text(r))
                return False
            first = False
        elif op in ("pause", "halt"):
            paused = True
        elif op == "resume":
            paused, dropped = False, 0
        elif op == "write":
            line = env[LINE(k)]
            if conn < 0:
                if out:
                    raise Unknown("a write without a connection")
                continue
            if not connected:
                continue
            if paused:
                dropped += 1
                if out:
                    rep.violation("paused", "written", "%s writes %r while paused" % (at, value(p, out[0].args[0])), where, path_text(r))
                    return False
                if vals[3] is not None and vals[3] != dropped:
                    rep.violation("paused", "count", "%s: %s messages are counted as dropped, it is %d" % (at, vals[3], dropped), where, path_text(r))
                    return False
                continue
            if any(callname(e).endswith("writeSequence") for e in out):
                raise Unknown("writeSequence")
            text = "".join(value(p, e.args[0]) for e in out)
            if any(callname(e).split(".")[0] != "transport%d" % conn for e in out):
                rep.violation("written", "which", "%s goes to %s, not to the current connection" % (at, callname(out[0]).split(".")[0]), where, path_text(r))
                return False
            if text != framed(line):
                rep.violation("written" if not out else "framed", "line", "%s of %r writes %r instead of %r" % (at, line, text, framed(line)), where, path_text(r))
                return False
        elif op == "lose":
            connected = False
        elif op == "stop":
            if vals[2] is not None and vals[2]:
                rep.violation("stops", "trying", "%s leaves the factory reconnecting" % at, None, path_text(r))
                return False
            shut = [e for e in evs if callname(e) in ("transport%d.loseConnection" % conn, "transport%d.abortConnection" % conn, "connector.disconnect") or callname(e).endswith(".disconnect")]
            if connected and not shut:
                rep.violation("stops", "closing", "%s does not close the connection" % at, None, path_text(r))
                return False
        elif op == "start":
            con = [e for e in evs if callname(e).endswith("connectTCP")]
            if len(con) != 1:
                rep.violation("starts", "connecting", "%s connects %d times" % (at, len(con)), None, path_text(r))
                return False
            if [show(x) for x in con[0].args[:2]] != ["cfg:host", "cfg:port"]:
                rep.violation("starts", "address", "%s connects to %s" % (at, [show(x) for x in con[0].args[:2]]), con[0].where, path_text(r))
                return False
    return True
