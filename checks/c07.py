"""C07: (1) the service is interpreted over a symbolic flush interval with messages, one round of its tasks and the
status page: intervals of the tasks, rates, durations and the page are evaluated at many intervals and
clock speeds; (2) histories of counters over symbolic intervals against a reference, other people's plugins, and
the clock readings behind each duration; (3) the timings of both clients over symbolic durations."""
from checks.live import *
from checks.model import *
import checks.c08 as c08
import checks.c12 as c12

TECHNIQUE = "static analysis: abstract interpretation over a symbolic flush interval and clock; unit conversions compared as terms at many points"
ASSUMPTIONS = ["the flush interval is a positive integer", "numbers are exact (rounding is left out)", "the clock does not go backwards within a flush"]
F_ = opt("flush-interval")
INTERVALS = [7, 250, 999, 1000, 1001, 1500, 10000, 12345, 60000, 1]
CLOCKS = [Fraction(0), Fraction(1, 4096), Fraction(7, 1000), Fraction(1, 2), Fraction(7, 2), Fraction(700)]


def run(ctx, rep):
    jobs = []
    for c in (1, 0):
        o = dict(SERVER, **{"statsd-compliance": const(c)})
        jobs += [("service", o, ["tasks", ("msg", const("a:6|c")), ("msg", const("b:20|ms")), ("get", [const("status")]), "tasks", ("get", [const("status")])]),
                 ("service", o, ["tasks", ("get", [const("status")]), "tasks", ("get", [const("status")])])]
        jobs += [("service", dict(o, **{"dump-mode": const(1)}), ["tasks", ("msg", const("a:6|c")), "tasks", ("get", [const("status")])])]
    for s in ([("c", 0), "flush"], [("c", 0), ("c", 1), "flush"], [("c", 0), "flush", ("c", 0), "flush"], [("c", 0), ("g", 1), "flush", "flush"]):
        jobs.append(("rates", s))
    for kind in ("compliant", "configurable", "logging"):
        jobs.append(("plugin", kind))
        for s in ([("c", 0), "flush"], [("ms", 0), ("g", 1), "flush"], [("c", 0), "flush", ("m", 1), "flush"], [("sli", 0), "flush"], ["flush"]):
            jobs.append(("durations", kind, s))
    for which in c12.CLASSES:
        for s in ([("timing", 0)], [("timing rated", 0)], [("reset", 0), ("timing clock", 0)], [("timing clock", 0), ("timing clock", 0)], [("timing", 0), ("timing", 0)],
                  [("timing clock", 0), ("timing", 0)], [("reset", 0), ("timing", 0), ("timing clock", 0)],
                  [("reset", 0), ("timing clock", 0), ("timing clock", 1), ("timing clock", 0)], [("reset", 0), ("reset", 0), ("timing clock", 0)]):
            jobs.append(("client", which, "given", s))
        jobs.append(("client", which, "none", [("timing", 0)]))
    ctx.pmap(lambda j, rp: job(ctx, rp, j), jobs)


def rate(x):
    return x[:2] == ("counter", "rate")


def job(ctx, rep, j):
    if j[0] == "service":
        service(ctx, rep, *j[1:])
    elif j[0] == "rates":
        judge(ctx, rep, "compliant", j[1], "cfg", ("value", "undefined"), "rate", want=rate)
    elif j[0] == "plugin":
        judge_custom(ctx, rep, j[1], "plugin-interval")
    elif j[0] == "durations":
        history(ctx, rep, *j[1:])
    else:
        c12.one(ctx, rep, *j[1:])


def history(ctx, rep, kind, steps):
    H = History(ctx, kind, steps, "cfg")
    for r in H.paths:
        if r.kind == "undecided":
            rep.undecided("durations", "%s %s" % (kind, steps), r.value)
    for hit in H.points(6 if not ctx.thorough else 30, ctx.seed):
        if hit is not None and hit[0].kind == "ok":
            replay(H, hit[0], hit[1], lambda step, Fl, exp, groups, rec, ts, ref: c08.durations(rep, kind, H, hit[0], hit[1], step, Fl, exp, rec, ref))


def at(r, env):
    """A point on the path, or None."""
    p = Point(random.Random(1), dict(env))
    p.approx = True
    try:
        for a, v in r.facts.log:
            if bool(p.ev(a)) != v:
                return None
    except (NoValue, Unknown):
        return None
    return p


def service(ctx, rep, o, steps):
    I = stubbed(ctx)
    rs = ctx.explore(I, live(ctx, o, steps))
    told = "%s service%s" % ("compliant" if o["statsd-compliance"] == const(1) else "configurable", ", dump mode" if o.get("dump-mode") == const(1) else "")
    for r in rs:
        if r.kind == "undecided":
            rep.undecided("service", told, r.value)
    for iv in INTERVALS + ["over", "under", "even"]:
        for dt in CLOCKS:
            env = {F_: Fraction(1000), "#t0": Fraction(2000001, 2), "#dt": dt}
            if not isinstance(iv, int):
                total = reported(rs, steps, o, env)
                if not total:
                    continue
                v = total * 10 / 7
                env[F_] = Fraction({"over": int(v) - 1 if v == int(v) else int(v), "under": int(v) + 1, "even": v}[iv])
                if env[F_] != int(env[F_]) or env[F_] < 1:
                    continue
            else:
                env[F_] = Fraction(iv)
            hits = [(r, p) for r in rs if r.kind != "undecided" for p in [at(r, env)] if p is not None]
            if len(hits) != 1:
                rep.undecided("service", told, "%d paths at %s" % (len(hits), env[F_]))
                continue
            r, p = hits[0]
            name = "%s, flush interval %s ms, clock step %s s" % (told, env[F_], dt)
            if r.kind == "raise":
                rep.violation("service", told, "%s: %s" % (name, r.value), getattr(r.value, "where", None), path_text(r))
                return
            try:
                if not page(rep, name, told, r, p, o, steps, env[F_]):
                    return
            except (NoValue, Unknown) as e:
                rep.undecided("service", name, e)


def reported(rs, steps, o, env):
    for r in rs:
        p = at(r, env) if r.kind == "ok" else None
        if p is not None:
            try:
                return sums(gave(r, steps), p, o)[-1]
            except (NoValue, Unknown):
                return None
    return None


def sums(gs, p, o):
    """After each step, the durations last reported, or None."""
    pre = internal_prefix(o)
    out, flush, receive = [], None, None
    for g in gs:
        if g.op == "tasks":
            flush, receive = Fraction(0), Fraction(0)
            for n, v, t, w in g.sent():
                n = value(p, n)
                if n.startswith(pre) and n.endswith(".duration"):
                    if n.startswith(pre + "flush."):
                        flush += value(p, v)
                    elif n.startswith(pre + "receive."):
                        receive += value(p, v)
        out.append(None if flush is None else flush + receive)
        g.times = (flush, receive)
    return out


def page(rep, name, told, r, p, o, steps, iv):
    gs = gave(r, steps)
    totals = sums(gs, p, o)
    count = None
    for k, g in enumerate(gs):
        if g.op == "tasks":
            ts = g.tasks()
            for interval, evs in ts:
                v = value(p, interval)
                if not num_eq(v, iv / 1000):
                    what = "the flush" if calls(evs, "sendDatapoint") else "the report of the carbon client's statistics"
                    rep.violation("schedule", told.split()[0], "%s: %s runs every %s s instead of every %s s" % (name, what, rinterp.fmtnum(v), rinterp.fmtnum(iv / 1000)), None, path_text(r))
                    return False
            if not any(calls(evs, "sendDatapoint") for i, evs in ts):
                raise Unknown("no task flushes")
            rep.ok("schedule", name)
            for n, v, t, w in g.sent():
                if o["statsd-compliance"] == const(1) and value(p, n) == "stats.a":
                    want = (Fraction(6) if ("msg", const("a:6|c")) in steps[:k] and "tasks" not in steps[1:k] else Fraction(0)) * 1000 / iv
                    x = value(p, v)
                    if not num_eq(x, want):
                        rep.violation("rate", "service", "%s: the rate of a counter that counted 6 is %s instead of %s" % (name, rinterp.fmtnum(x), rinterp.fmtnum(want)), w, path_text(r))
                        return False
                    rep.ok("rate", name)
        elif g.op[0] == "get":
            code, body, data, failed = g.page()
            if failed:
                rep.violation("status", "raises", "%s: the status page fails with %s" % (name, failed.args[0][1]), None, path_text(r))
                return False
            if data is None:
                raise Unknown("the body of the status page")
            flush, receive = g.times
            for key, want in (("flush_interval", iv), ("flush_time", flush), ("process_time", receive)):
                if key not in data or want is None:
                    continue
                x = value(p, data[key])
                if not num_eq(x, want):
                    rep.violation("status", key, "%s: the status page shows the %s %s, in milliseconds it is %s" % (name, key, rinterp.fmtnum(x), rinterp.fmtnum(want)), None, path_text(r))
                    return False
            if totals[k] is not None:
                over = totals[k] > iv * 7 / 10
                c = value(p, code)
                if c not in (200, 500):
                    raise Unknown("response code %s" % c)
                if (c == 500) != over:
                    rep.violation("status", "code", "%s: with durations of %s ms the status page answers with the code %s" % (name, rinterp.fmtnum(totals[k]), c), None, path_text(r))
                    return False
            rep.ok("status", name)
    return True
