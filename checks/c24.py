"""C24: both listeners are built with a symbolic monitor message and response and given two symbolic
datagrams or lines in a row; on every path, at assignments in which the data equals, nearly equals or
differs from the monitor message, the calls made (including those scheduled in the reactor) must be
the answer to the sender alone, or one hand-over of the unmodified data to the processor alone."""
from checks.common import *

ASSUMPTIONS = ["calls scheduled in the reactor are made once"]
TECHNIQUE = "static analysis: abstract interpretation of the protocol methods on symbolic data; call events compared with the contract at representative data"

SP = "txstatsd.server.protocol"
D = [sym("data1", "str"), sym("data2", "str")]
MM, MR = sym("monitor_message", "str"), sym("monitor_response", "str")
HOST, PORT = [sym("host1", "str"), sym("host2", "str")], [sym("port1", "int"), sym("port2", "int")]


def scenario(ctx, which, monitor):
    def sc(I):
        kw = {}
        if monitor:
            kw = {"monitor_message": MM, "monitor_response": MR}
        c = ctx.need_class(I, SP, "StatsDServerProtocol" if which == "udp" else "StatsDTCPServerFactory")
        o = I.call(c, [sym("cfg:processor", "obj")], kw, None)
        if which == "tcp":
            o = I.call(I.getattr(o, "buildProtocol", None), [sym("addr", "obj")], {}, None)
        I.setattr(o, "transport", sym("cfg:transport", "obj"), None)
        for n in (0, 1):
            I.event("mark", "m%d" % n)
            start = len(I.st.events)
            if which == "udp":
                I.call(I.getattr(o, "datagramReceived", None), [D[n], ("tuple", HOST[n], PORT[n])], {}, None)
            else:
                I.call(I.getattr(o, "lineReceived", None), [D[n]], {}, None)
            settle(I, start)
        I.event("mark", "end")
        return o
    return sc


MONITORS = ["txstatsd ping", "ping:1|c", "", "Ping", "a b  c", "p*ng.[x]"]


def variants(m):
    return [m, m + "\n", " " + m, m + " ", m.upper(), m.lower(), m[:-1], m + "x", "x" + m, m + m, "", "a:1|c", "gorets:-3|ms\n", "a:1|c\nb:2|c",
            "txstatsd ping", "txstatsd pong", "\x00\xff", "  ", "a:1|c\r"]


def run(ctx, rep):
    delimiter(ctx, rep)
    for which in ("udp", "tcp"):
        for monitor in (True, False):
            I = ctx.interp()
            rs = ctx.explore(I, scenario(ctx, which, monitor))
            subj = "%s:%s" % (which, "monitored" if monitor else "plain")
            for r in rs:
                if r.kind == "undecided":
                    rep.undecided("answer-or-process", subj, r.value)
            n = 0
            for m in (MONITORS if monitor else [None]):
                vs = variants(m if m is not None else "txstatsd ping")
                for i, a in enumerate(vs):
                    for b in (vs if ctx.thorough else [a, m if m is not None else a, "z:1|g"]):
                        env = {D[0]: a, D[1]: b, MR: "the response", HOST[0]: "10.0.0.1", HOST[1]: "10.0.0.2", PORT[0]: Fraction(4000), PORT[1]: Fraction(4001)}
                        if m is not None:
                            env[MM] = m
                        hit = pick(rs, env, ctx.seed)
                        if hit is None:
                            rep.undecided("answer-or-process", subj, "no path for %r, %r" % (a, b))
                            continue
                        n += 1
                        one(rep, subj, which, m, (a, b), *hit)
            if n:
                rep.ok("answer-or-process", "%s: %d pairs of data" % (subj, n), n=n)


def one(rep, subj, which, m, data, r, p):
    if r.kind == "raise":
        rep.violation("answer-or-process", "%s:raise" % subj, "the data %r, %r with monitor message %r: %s" % (data[0], data[1], m, r.value), getattr(r.value, "where", None), path_text(r))
        return
    for n in (0, 1):
        evs = after_mark(r.events, "m%d" % n)
        told = "the %s %r with monitor message %r" % ("datagram" if which == "udp" else "line", data[n], m)
        done, answers = [], []
        for e in all_events(evs):
            if e.kind != "call":
                continue
            nm = callname(e)
            if nm.startswith("cfg:processor."):
                done.append(e)
            elif nm.startswith("cfg:transport.") and nm.rsplit(".", 1)[-1] in ("write", "writeSequence", "sendLine", "writeSomeData", "send", "sendto"):
                answers.append(e)
            elif nm.rsplit(".", 1)[-1] in ("sendLine", "loseConnection", "abortConnection", "setRawMode"):
                answers.append(e)
        where = (done + answers)[0].where if done + answers else None
        try:
            if data[n] == m and m is not None:
                if done:
                    rep.violation("ping-not-processed", subj, "%s is processed as a metric" % told, where, path_text(r))
                    continue
                if len(answers) != 1:
                    rep.violation("ping-answered", subj, "%s is answered %d times" % (told, len(answers)), where, path_text(r))
                    continue
                a = answers[0]
                if not callname(a).endswith("transport.write"):
                    rep.undecided("ping-answered", subj, callname(a))
                    continue
                got = value(p, a.args[0])
                if got != "the response":
                    rep.violation("ping-answered", subj, "%s is answered with %r, not with the response" % (told, got), where, path_text(r))
                    continue
                if which == "udp":
                    to = tuple(value(p, x) for x in a.args[1][1:]) if len(a.args) > 1 and a.args[1][0] == "tuple" else None
                    want = ("10.0.0.%d" % (n + 1), Fraction(4000 + n))
                    if to != want:
                        rep.violation("ping-answered", "%s:sender" % subj, "%s is answered to %s, not to its sender" % (told, to), where, path_text(r))
                        continue
                rep.ok("ping-answered", subj)
            else:
                if answers:
                    rep.violation("data-not-answered", subj, "%s is answered: %s" % (told, answers[0]), where, path_text(r))
                    continue
                if len(done) != 1:
                    rep.violation("data-processed-once", subj, "%s is handed to the processor %d times" % (told, len(done)), where, path_text(r))
                    continue
                if not callname(done[0]) == "cfg:processor.process" or len(done[0].args) != 1:
                    rep.violation("data-processed-once", "%s:how" % subj, "%s is handed over as %s" % (told, done[0]), where, path_text(r))
                    continue
                got = value(p, done[0].args[0])
                if got != data[n]:
                    rep.violation("data-unmodified", subj, "%s is handed to the processor as %r" % (told, got), where, path_text(r))
                else:
                    rep.ok("data-unmodified", subj)
        except (NoValue, Unknown) as e:
            rep.undecided("answer-or-process", subj, e)


def delimiter(ctx, rep):
    """A line of the TCP listener ends as the redirect and other clients end it."""
    I = ctx.interp()
    got = []

    def sc(I):
        c = ctx.need_class(I, SP, "StatsDTCPServerProtocol")
        d = I.class_lookup(c[1], "delimiter") if c[0] == "cls" else None
        d = d[0] if d and isinstance(d[0], tuple) else d
        got.append(d)
    ctx.explore(I, sc)
    d = got[0] if got else None
    if d is not None and is_const(d) and d[1] != "\r\n":
        rep.violation("line-end", "tcp", "the lines of the TCP listener end with %r" % (d[1],))
    else:
        rep.ok("line-end", "the delimiter is that of LineReceiver")
