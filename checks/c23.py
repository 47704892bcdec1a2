"""C23: the service is interpreted through histories of messages, flushes and requests, for each kind of processor:
the status page over a symbolic flush interval and clock, the list of metrics against the names processed, and the
page of every name - of timers, plugin metrics, other metrics and unknown - against the samples processed."""
from checks.live import *
from checks.c07 import at, sums, INTERVALS, CLOCKS, F_

TECHNIQUE = "static analysis: abstract interpretation of request histories on the served resources; response code and body terms against a reference of what was processed"
ASSUMPTIONS = ["twisted.web's Resource, NoResource, ErrorPage and Site behave as described in stubs/twisted_model.py", "requests use GET"]
G = lambda *p: ("get", [const(x) for x in p])
M_ = lambda t: ("msg", const(t))
WELL = ["c1:3|c", "c1:4|c", "g1:5|g", "g1:6|g", "m1:2|m", "m2:1|m", "t1:20|ms", "t1:30|ms", "t2:7|ms", "s1:5|sli", "d1:x|pd", "g2:1|g", "same:1|c", "same:2|g", "same:9|ms", "a.b.t:3|ms", "dir/x y:2|ms"]
NAMES_ = {"c1": "c", "g1": "g", "m1": "m", "m2": "m", "t1": "ms", "t2": "ms", "s1": "sli", "d1": "pd", "g2": "g", "same": "cgms", "a.b.t": "ms"}


def parse(m):
    key, rest = m.split(":", 1)
    key = "_".join(key.split()).replace("/", "-")
    f = rest.split("|")
    return key, f[0], f[1]


def scripts(ctx):
    lst, pages = G("list_metrics"), [G("metrics", n) for n in list(NAMES_) + ["nothing", "", "c1.count", "T1", "__class__", "name", "dir-x_y"]]
    all_ = [M_(t) for t in WELL]
    out = [[lst] + [G("metrics", "t1")], all_ + [lst], all_ + pages]
    some = [[M_(t) for t in WELL if t[0] in x] for x in (("c", "g"), ("t", "d"), ("s", "a"), ("m",), "gmt")]
    out += [x + ["tasks", lst] + pages for x in some] + [x + ["tasks", "tasks", lst] + pages[:7] for x in some[:4]]
    for t in WELL:
        k = parse(t)[0]
        out += [[M_(t), lst, G("metrics", k), "tasks", lst, G("metrics", k)]]
    out += [[M_("t1:20|ms"), "tasks", M_("t1:5|ms"), G("metrics", "t1"), M_("t1:-4|ms"), M_("t1:1.5|ms"), G("metrics", "t1"), "tasks", G("metrics", "t1")],
            [M_("x:1|zz"), M_("bad"), M_("y:q|c"), lst, G("metrics", "x"), G("metrics", "y")],
            [M_("t1:1|c"), M_("t1:2|ms"), lst, G("metrics", "t1")], [M_("p:1|sli"), M_("p:2|ms"), G("metrics", "p"), lst]]
    return out


def run(ctx, rep):
    jobs = []
    for c in (1, 0):
        o = dict(SERVER, **{"statsd-compliance": const(c)})
        jobs += [("pages", dict(o, **{"flush-interval": const(10000)}), s) for s in scripts(ctx)]
        jobs += [("plugin", dict(o, **{"flush-interval": const(10000)}), s) for s in (
            [M_("z:1|zz"), G("metrics", "z"), G("list_metrics")], [M_("z:1|zz"), "tasks", G("metrics", "z"), G("metrics", "y")], [M_("z:1|zz"), M_("w:2|ms"), G("metrics", "w"), G("metrics", "z"), G("list_metrics")])]
        for s in (["tasks", M_("a:6|c"), M_("b:20|ms"), G("status"), "tasks", G("status")], [G("status")], [M_("a:6|c"), G("status"), "tasks", G("status"), "tasks", "tasks", G("status")]):
            jobs.append(("status", o, s))
    o = dict(SERVER, **{"dump-mode": const(1), "flush-interval": const(10000)})
    jobs += [("pages", o, s) for s in scripts(ctx)[:5]]
    ctx.pmap(lambda js, rp: [job(ctx, rp, *j) for j in js], [jobs[i::24] for i in range(24)])


def job(ctx, rep, kind, o, steps):
    {"pages": pages, "plugin": plugin, "status": status}[kind](ctx, rep, o, steps)


def mode(o):
    return ("compliant" if o["statsd-compliance"] == const(1) and "dump-mode" not in o else "configurable") + (" dump" if "dump-mode" in o else "")


def story(steps):
    return ", ".join("flush" if s == "tasks" else "GET /" + "/".join(x[1] for x in s[1]) if s[0] == "get" else s[1][1] for s in steps)


def fixed(r):
    """A path of constants only, apart from time."""
    p = Point(random.Random(5), {("attr", sym("cfg:customplugin", "obj"), "metric_type"): CUSTOM_TYPE})
    p.approx = True
    try:
        if on_path(r, p) is False:
            return None
    except (NoValue, Unknown):
        return None
    return p


def explored(ctx, rep, rule, o, steps, plugins=None):
    I = stubbed(ctx)
    told = "%s service after %s" % (mode(o), story(steps))
    n = 0
    for r in ctx.explore(I, live(ctx, o, steps, plugins)):
        if r.kind == "undecided":
            rep.undecided(rule, told, r.value)
            continue
        p = fixed(r)
        if p is None:
            continue
        n += 1
        if r.kind == "raise":
            rep.undecided(rule, told, r.value)
            continue
        yield r, p, told
    if not n:
        rep.undecided(rule, told, "no path")


def pages(ctx, rep, o, steps):
    for r, p, told in explored(ctx, rep, "pages", o, steps):
        try:
            follow(rep, r, p, o, steps)
        except (NoValue, Unknown) as e:
            rep.undecided("pages", told, e)


def follow(rep, r, p, o, steps, own=True):
    seen, timers = set(), {}
    for k, g in enumerate(gave(r, steps)):
        told = "%s service after %s" % (mode(o), story(steps[:k + 1]))
        V = lambda rule, subj, text, where=None: rep.violation(rule, "%s:%s" % (mode(o), subj), "%s: %s" % (told, text), where, path_text(r))
        if g.op == "tasks":
            # the server's own gauge is among the metrics from the first report on
            seen.add("web1.destinations.x_1")
            for t in timers:
                timers[t] = []
        elif g.op[0] == "msg":
            m = g.op[1][1]
            if m not in WELL and ":" not in m or m.endswith("|zz") or ":q|" in m:
                continue
            key, v, t = parse(m)
            seen.add(key)
            if t == "ms":
                timers.setdefault(key, [])
                if float(v) >= 0:
                    timers[key].append(Fraction(v))
        else:
            path = [x[1] for x in g.op[1]]
            code, body, data, failed = g.page()
            if failed:
                return V("raises", path[0], "the page fails with %s" % failed.args[0][1])
            code = value(p, code)
            if path[0] == "list_metrics":
                if code != 200:
                    return V("names", "code", "the list of metrics answers with the code %s" % code)
                names = None
                if data is not None and "names" in data:
                    names = list(value(p, data["names"]))
                if names is None:
                    raise Unknown("the body of the list of metrics")
                missing, extra = sorted(seen - set(names)), sorted(set(names) - seen)
                if missing or extra:
                    return V("names", "names", "the list of metrics %s" % " and ".join(
                        x for x in ("lacks %s" % ", ".join(missing) if missing else "", "has %s, never seen" % ", ".join(extra) if extra else "") if x))
                rep.ok("names", told)
            elif path[0] == "metrics":
                name = path[1]
                if mode(o) == "compliant" or name not in timers:
                    if code != 404:
                        return V("page", "404", "the page of %r answers with the code %s" % (name, code))
                    rep.ok("page", told)
                    continue
                if code != 200:
                    return V("page", "timer", "the page of the timer %r answers with the code %s" % (name, code))
                if data is None:
                    raise Unknown("the body of a timer's page")
                vs = timers[name]
                for key, want in (("max_value", max(vs) if vs else 0), ("min_value", min(vs) if vs else 0)):
                    if key not in data:
                        return V("page", "timer", "the page of the timer %r has no %s" % (name, key))
                    x = value(p, data[key])
                    if x != want:
                        return V("page", key, "the page of the timer %r shows the %s %s instead of %s" % (name, key, x, want))
                if "histogram" not in data:
                    return V("page", "timer", "the page of the timer %r has no histogram" % name)
                h = value(p, data["histogram"])
                if sum(h) != len(vs):
                    return V("page", "histogram", "the histogram of the timer %r counts %s samples instead of %d" % (name, sum(h), len(vs)))
                rep.ok("page", told)


# ------------------------------------------------------------------ somebody else's plugin
RES, PAGE = sym("cfg:pluginresource", "obj"), sym("cfg:custommetric", "obj")


def plugin(ctx, rep, o, steps):
    def plugins(I):
        out = bundled_plugins(I) + custom_plugin(I)
        I.assume(I.eq_atom(("attr", out[-1], "metric_type"), const(CUSTOM_TYPE)), True)
        return out

    for has in (True, False):
        def with_resource(I):
            I.assume(("hasattr", PAGE, const("getResource")), has)
            if has:
                I.cfg.opaque_methods["getResource"] = lambda I, base, a, k, n: RES if base == PAGE else None
            return plugins(I)
        for r, p, told in explored(ctx, rep, "plugin", o, steps, with_resource):
            try:
                seen = set()
                for k, g in enumerate(gave(r, steps)):
                    told = "%s service after %s" % (mode(o), story(steps[:k + 1]))
                    if g.op == "tasks":
                        continue
                    if g.op[0] == "msg":
                        seen.add(parse(g.op[1][1])[0])
                        continue
                    path = [x[1] for x in g.op[1]]
                    code, body, data, failed = g.page()
                    V = lambda subj, text: rep.violation("plugin", "%s:%s" % (mode(o), subj), "%s: %s" % (told, text), None, path_text(r))
                    if failed:
                        return V("raises", "the page fails with %s" % failed.args[0][1])
                    if path[0] == "list_metrics":
                        if data is None or "names" not in data:
                            raise Unknown("the body of the list")
                        names = set(value(p, data["names"]))
                        if not seen <= names:
                            return V("names", "the list of metrics lacks %s" % ", ".join(sorted(seen - names)))
                    elif path[1] == "z":
                        if has and body != RES:
                            if value(p, code) == 404 or body is not None and is_const(body):
                                return V("page", "the page of a plugin's metric is not the resource it gives")
                            raise Unknown("the resource served")
                        if not has and value(p, code) != 404:
                            return V("page", "the page of a plugin's metric that has none answers with the code %s" % value(p, code))
                    elif path[1] == "y" and value(p, code) != 404:
                        return V("page", "the page of an unknown metric answers with the code %s" % value(p, code))
                    rep.ok("plugin", told)
            except (NoValue, Unknown) as e:
                rep.undecided("plugin", told, e)


# ------------------------------------------------------------------ status
def status(ctx, rep, o, steps):
    I = stubbed(ctx)
    rs = ctx.explore(I, live(ctx, o, steps))
    told = "%s service after %s" % (mode(o), story(steps))
    for r in rs:
        if r.kind == "undecided":
            rep.undecided("status", told, r.value)
    for iv in INTERVALS + ["over", "under", "even"]:
        for dt in CLOCKS:
            env = {F_: Fraction(iv if isinstance(iv, int) else 1000), "#t0": Fraction(2000001, 2), "#dt": dt}
            hits = [(r, p) for r in rs if r.kind != "undecided" for p in [at(r, env)] if p is not None]
            if not isinstance(iv, int):
                try:
                    total = sums(gave(hits[0][0], steps), hits[0][1], o)[-1] if hits else None
                except (NoValue, Unknown):
                    total = None
                if not total:
                    continue
                v = total * 10 / 7
                env[F_] = Fraction({"over": int(v) - 1 if v == int(v) else int(v), "under": int(v) + 1, "even": v}[iv])
                if env[F_] != int(env[F_]) or env[F_] < 1:
                    continue
                hits = [(r, p) for r in rs if r.kind != "undecided" for p in [at(r, env)] if p is not None]
            if len(hits) != 1:
                rep.undecided("status", told, "%d paths at %s" % (len(hits), env[F_]))
                continue
            r, p = hits[0]
            name = "%s, flush interval %s ms, clock step %s s" % (told, env[F_], dt)
            if r.kind == "raise":
                rep.undecided("status", name, r.value)
                continue
            try:
                if not answer(rep, name, r, p, o, steps, env[F_]):
                    return
            except (NoValue, Unknown) as e:
                rep.undecided("status", name, e)


def answer(rep, name, r, p, o, steps, iv):
    gs = gave(r, steps)
    sums(gs, p, o)
    flush, receive = Fraction(0), Fraction(0)
    for k, g in enumerate(gs):
        V = lambda subj, text: rep.violation("status", "%s:%s" % (mode(o), subj), "%s: %s" % (name, text), None, path_text(r))
        if g.op == "tasks":
            flush, receive = g.times
        elif g.op[0] == "get":
            code, body, data, failed = g.page()
            if failed:
                V("raises", "the status page fails with %s" % failed.args[0][1])
                return False
            code = value(p, code)
            over = flush + receive > iv * 7 / 10
            if (code == 500) != over or code not in (200, 500):
                V("code", "with durations of %s and %s ms the status page answers with the code %s" % (rinterp.fmtnum(flush), rinterp.fmtnum(receive), code))
                return False
            if data is None:
                raise Unknown("the body of the status page")
            if "status" in data and value(p, data["status"]) != ("ERROR" if over else "OK"):
                V("status", "with durations of %s and %s ms the status page says %s" % (rinterp.fmtnum(flush), rinterp.fmtnum(receive), value(p, data["status"])))
                return False
            figures = {"flush_interval": iv, "flush_time": flush, "process_time": receive}
            for key, want in figures.items():
                if key not in data:
                    V(key, "the status page does not show %s" % key)
                    return False
                x = value(p, data[key])
                if x != want:
                    V(key, "the status page shows the %s %s instead of %s" % (key, rinterp.fmtnum(x), rinterp.fmtnum(want)))
                    return False
            if "status" not in data:
                V("status", "the status page does not say OK or ERROR")
                return False
            rep.ok("status", name)
    return True
