"""C22: histories of samples, clears and reports, with symbolic values, clock readings and timestamps, are interpreted
for each reporter and reservoir; every path that raises is looked for at many assignments, and what the statistics
give is compared with those of the samples."""
import itertools
import math
from checks.common import *

ASSUMPTIONS = ["samples are finite numbers whose sums and squares do not overflow", "random() lies in [0, 1)"]
TECHNIQUE = "static analysis: abstract interpretation of symbolic histories with arithmetic hazards as paths; raising paths and values decided at assignments, square roots by a semidefiniteness argument"
MET = "txstatsd.metrics."
QS = (0.0, 0.001, 0.25, 0.5, 0.75, 0.95, 0.999, 1.0)


def V(i):
    return sym("sample%d" % i, "num")


def C(i):
    return sym("clock%d" % i, "num")


def TS(k):
    return sym("time%d" % k, "num")


HAZ = {"parse", "none", "key", "zerodiv", "index", "unpack", "domain"}


def interp(ctx, draws=None, **kw):
    I = ctx.interp(hazards=set(HAZ), **kw)
    return I


def clock(I, fixed=None):
    n = [0]

    def read(I, a, k, node):
        n[0] += 1
        if fixed is not None:
            return const(float(fixed[C(min(n[0] - 1, 15))]))
        return C(n[0] - 1)
    I.cfg.ext["cfg.clock"] = read
    I.cfg.ext["time.time"] = read
    return ("x", "cfg.clock")


def randoms(I, fixed=None):
    n = [0]

    def draw(I, a, k, node):
        n[0] += 1
        t = sym("draw%d" % (n[0] - 1), "num")
        if fixed is not None:
            return const(float(fixed[sym("draw%d" % ((n[0] - 1) % 16), "num")]))
        I.assume(I.lt0(t), False)
        I.assume(I.lt0(("sub", t, const(1))), True)
        return t

    def integer(I, a, k, node):
        n[0] += 1
        t = sym("draw%d" % (n[0] - 1), "int")
        if fixed is not None:
            return const(int(fixed[sym("draw%d" % ((n[0] - 1) % 16), "int")]))
        if len(a) == 2:
            I.assume(I.lt0(("sub", t, a[0])), False)
            I.assume(I.lt0(("sub", a[1], t)), False)
        return t
    I.cfg.ext["random.random"] = draw
    I.cfg.ext["random.randint"] = integer
    I.cfg.ext["random.uniform"] = None
    del I.cfg.ext["random.uniform"]


def make(ctx, I, kind, big=False):
    """(object, methods it has)."""
    fixed = assigned(*kind[2]) if isinstance(kind, tuple) and len(kind) > 2 else None
    c = clock(I, fixed)
    randoms(I, fixed if fixed is not None else None if not big else assigned("forward", 1))
    if kind == "timer":
        return I.call(ctx.need_class(I, MET + "timermetric", "TimerMetricReporter"), [const("t")], {"wall_time_func": c, "prefix": const("p")}, None)
    if kind == "meter":
        return I.call(ctx.need_class(I, MET + "metermetric", "MeterMetricReporter"), [const("t")], {"wall_time_func": c, "prefix": const("p")}, None)
    if kind == "gauge":
        return I.call(ctx.need_class(I, MET + "gaugemetric", "GaugeMetricReporter"), [const("t")], {"prefix": const("p")}, None)
    if kind in ("one minute", "five minute", "fifteen minute"):
        cls = ctx.need_class(I, "txstatsd.stats.ewma", "Ewma")
        return I.call(I.getattr(cls, kind.replace(" ", "_") + "_ewma", None), [], {}, None)
    what, n = kind[:2]
    if what == "uniform":
        s = I.call(ctx.need_class(I, "txstatsd.stats.uniformsample", "UniformSample"), [const(n)], {}, None)
    elif what == "decaying":
        s = I.call(ctx.need_class(I, "txstatsd.stats.exponentiallydecayingsample", "ExponentiallyDecayingSample"), [const(n), const(0.015)], {"wall_time": c}, None)
    else:
        cls = ctx.need_class(I, MET + "histogrammetric", "HistogramMetricReporter")
        return I.call(I.getattr(cls, "using_" + what, None), [], {}, None)
    return I.call(ctx.need_class(I, MET + "histogrammetric", "HistogramMetricReporter"), [s], {}, None)


def many(i):
    return i * 7 % 13 + 1


def scenario(ctx, kind, steps):
    def sc(I):
        o = make(ctx, I, kind, any(isinstance(s, int) for s in steps))
        m = lambda name, *a: I.call(I.getattr(o, name, None), list(a), {}, None)
        ns = nt = 0
        for k, s in enumerate(steps):
            I.event("mark", "step%d" % k)
            if s == "u":
                m("mark" if kind in ("meter", "gauge") else "update", V(ns))
                ns += 1
            elif isinstance(s, int):
                f = I.getattr(o, "update", None)
                for i in range(s):
                    I.call(f, [const(many(i))], {}, None)
            elif s == "clear":
                m("clear")
            elif s == "tick":
                m("tick")
                I.event("mark", "got%d" % k, [I.getattr(o, "rate", None)])
            elif s == "report":
                v = m("report", TS(nt))
                nt += 1
                I.event("mark", "got%d" % k, [I.snap(v)])
            elif s == "rate":
                v = m("rate", TS(nt))
                nt += 1
                I.event("mark", "got%d" % k, [v])
            elif s == "stats":
                I.event("mark", "got%d" % k, [("tuple",) + tuple(m(x) for x in ("min", "max", "mean", "std_dev"))])
            elif s == "percentiles":
                I.event("mark", "got%d" % k, [I.snap(m("percentiles", *[const(q) for q in QS]))])
            elif s == "values":
                I.event("mark", "got%d" % k, [I.snap(m("get_values"))])
            elif s == "histogram":
                h = m("histogram") if kind != "timer" else I.call(I.getattr(I.getattr(o, "histogram", None), "histogram", None), [], {}, None)
                I.event("mark", "got%d" % k, [I.snap(h)])
            else:
                raise AssertionError(s)
    return sc


# ------------------------------------------------------------------ what the statistics should be
OPEN = {"phi", "exit", "elem", "ret", "unk", "lidx", "sumover", "count", "psum", "attr", "dget", "lk", "obj"}


def is_open(t):
    """The term has leaves that stand for something the interpretation did not follow."""
    return isinstance(t, tuple) and bool(t) and (isinstance(t[0], str) and t[0] in OPEN and len(t) > 1 or any(is_open(x) for x in t))


def val(p, t):
    if is_open(t):
        raise Unknown("open: %s" % show(t)[:80])
    return value(p, t)


class Bad(Exception):
    pass


def near(a, b, eps=1e-6):
    if a is None or b is None or isinstance(a, (str, tuple)):
        return False
    return abs(float(a) - float(b)) <= eps * (1 + abs(float(b)))


def numbers(p, t):
    v = val(p, t)
    if v is None or isinstance(v, (int, float, Fraction, str)):
        raise Bad("gives %s instead of a list of numbers" % v)
    if not isinstance(v, tuple) or v and isinstance(v[0], str):
        raise Unknown("a list of numbers")
    return [float(x) for x in v]


def stddev(xs):
    if len(xs) < 2:
        return 0.0
    m = sum(xs) / len(xs)
    return math.sqrt(float(sum((x - m) ** 2 for x in xs) / (len(xs) - 1)))


def expect(kind, steps, env, p, got, capacity):
    """Check what was got at a point; raises Bad."""
    xs, seen, ns, nt, nc = [], 0, 0, 0, 0
    total = meter = Fraction(0)
    last = env[C(0)] if kind in ("timer", "meter") else None
    nc = 1
    value_ = Fraction(0)
    ewma = None
    pend = Fraction(0)
    for k, s in enumerate(steps):
        at = "step %d (%s)" % (k + 1, s)
        t = got.get(k)
        if s == "u":
            x = env[V(ns)]
            ns += 1
            seen += 1
            value_ = x
            meter += x
            pend += x
            if kind != "timer" or x >= 0:
                xs.append(x)
        elif isinstance(s, int):
            xs += [F(many(i)) for i in range(s)]
            seen += s
        elif s == "clear":
            xs = []
            if kind == "timer":
                last = env[C(nc)]
                nc += 1
        elif s == "tick":
            inst = pend / 5
            pend = Fraction(0)
            ewma = [inst] if ewma is None else ewma + [inst]
            v = val(p, t)
            lo, hi = min(ewma), max(ewma)
            if not (float(lo) - 1e-9 <= float(v) <= float(hi) + 1e-9):
                raise Bad("%s: the rate %s of instant rates %s" % (at, num(v), [num(x) for x in ewma]))
        elif s == "values":
            vs = sorted(numbers(p, t))
            check_kept(at, vs, xs, capacity)
        elif s == "stats":
            want = [min(xs), max(xs), sum(xs) / len(xs), stddev(xs)] if xs else [0, 0, 0, 0]
            for name, x, w in zip(("minimum", "maximum", "mean", "deviation"), t[1:], want):
                v = val(p, x)
                if not near(v, w):
                    raise Bad("%s: the %s of %s is %s instead of %s" % (at, name, [num(x) for x in xs], num(v), num(w)))
        elif s == "percentiles":
            vs = numbers(p, t)
            check_percentiles(at, vs, xs, len(QS), capacity)
        elif s == "histogram":
            vs = numbers(p, t)
            n = len(xs) if capacity is None else min(len(xs), capacity)
            if not vs or any(v < 0 for v in vs) or not near(sum(vs), n):
                raise Bad("%s: the histogram of %s is %s" % (at, [num(x) for x in xs], [num(v) for v in vs]))
        elif s == "rate":
            now = env[TS(nt)]
            nt += 1
            check_rate(at, val(p, t), len(xs), now - last)
        elif s == "report":
            now = env[TS(nt)]
            nt += 1
            items = {}
            if t[0] not in ("list", "tuple"):
                raise Unknown("report %s" % show(t)[:60])
            for it in t[1:]:
                if it[0] != "tuple" or len(it) != 4:
                    raise Unknown("item %s" % show(it)[:60])
                name = val(p, it[1])
                if not isinstance(name, str) or not name.startswith("p.t."):
                    raise Bad("%s: the item %s" % (at, name))
                items[name[4:]] = val(p, it[2])
                if not near(val(p, it[3]), now):
                    raise Bad("%s: %s has the timestamp %s instead of %s" % (at, name, num(val(p, it[3])), num(now)))
            if kind == "gauge":
                want = {"value": value_}
            elif kind == "meter":
                dt = now - last
                last = now
                if dt <= 0:
                    if "rate" in items and (items["rate"] is None or dt < 0 and meter != 0 and items["rate"] != 0 and near(items["rate"], meter / dt)):
                        raise Bad("%s: the rate over an interval of %s is %s" % (at, num(dt), num(items["rate"])))
                    continue
                want = {"rate": meter / dt}
                meter = Fraction(0)
            else:
                want = dict(zip(("min", "max", "mean", "stddev"), [min(xs), max(xs), sum(xs) / len(xs), stddev(xs)] if xs else [0, 0, 0, 0]))
                qs = [float(items[q]) for q in ("99percentile", "999percentile") if q in items]
                check_percentiles(at, qs, xs, 2, capacity)
                if "rate" not in items:
                    raise Bad("%s: no rate is reported" % at)
                check_rate(at, items["rate"], len(xs), now - last)
                last = now
                xs = []
            for name, w in want.items():
                if name not in items:
                    raise Bad("%s: no %s is reported" % (at, name))
                if not near(items[name], w, 1e-5):
                    raise Bad("%s: the %s is %s instead of %s" % (at, name, num(items[name]), num(w)))


def num(x):
    return "%.8g" % float(x) if isinstance(x, (int, float, Fraction)) else str(x)


def check_rate(at, v, n, dt):
    if v is None or isinstance(v, (str, tuple)):
        raise Bad("%s: the rate is %s" % (at, v))
    if dt > 0:
        if not near(v, Fraction(n) / dt, 1e-5):
            raise Bad("%s: the rate of %d samples in %s is %s" % (at, n, num(dt), num(v)))
    elif v < 0:
        raise Bad("%s: the rate over an interval of %s is %s" % (at, num(dt), num(v)))


def check_kept(at, vs, xs, capacity):
    want = sorted(float(x) for x in xs)
    n = len(want) if capacity is None else min(len(want), capacity)
    if len(vs) != n:
        raise Bad("%s: %d values are kept of %d samples" % (at, len(vs), len(want)))
    rest = list(want)
    for v in vs:
        m = [x for x in rest if near(v, x)]
        if not m:
            raise Bad("%s: %s is kept, which is not a sample left of %s" % (at, num(v), [num(x) for x in want[:8]]))
        rest.remove(m[0])


def check_percentiles(at, vs, xs, n, capacity):
    if len(vs) != n:
        raise Bad("%s: %d percentiles are given instead of %d" % (at, len(vs), n))
    if not xs:
        if any(v != 0 for v in vs):
            raise Bad("%s: percentiles %s without samples" % (at, [num(v) for v in vs]))
        return
    lo, hi = float(min(xs)), float(max(xs))
    eps = 1e-6 * (1 + max(abs(lo), abs(hi)))
    if any(not lo - eps <= v <= hi + eps for v in vs):
        raise Bad("%s: percentiles %s of samples from %s to %s" % (at, [num(v) for v in vs], num(lo), num(hi)))
    if any(a > b + eps for a, b in zip(vs, vs[1:])):
        raise Bad("%s: percentiles %s decrease" % (at, [num(v) for v in vs]))


# ------------------------------------------------------------------ assignments
F = Fraction
VALUES = {0: [()], 1: [(F(0),), (F(1),), (F(-1),), (F(5, 2),), (F(10 ** 6),), (F(1, 1000),)],
          2: [(F(0), F(0)), (F(1), F(1)), (F(-1), F(1)), (F(1), F(-1)), (F(3), F(1)), (F(1), F(3)), (F(0), F(7)), (F(-5), F(-2)), (F(1, 3), F(1, 3)), (F(5), F(0)), (F(0), F(-1))],
          3: [(F(1), F(2), F(3)), (F(3), F(2), F(1)), (F(2), F(2), F(2)), (F(-3), F(1), F(4)), (F(0), F(0), F(1)), (F(1), F(0), F(0)), (F(2), F(3), F(2)), (F(-1), F(-1), F(5)),
              (F(-4), F(2), F(8)), (F(5), F(1), F(5)), (F(1), F(1), F(-1))],
          4: [(F(1), F(2), F(3), F(4)), (F(4), F(3), F(2), F(1)), (F(2), F(2), F(2), F(2)), (F(0), F(5), F(0), F(5)), (F(-2), F(-2), F(7), F(1)), (F(9), F(1), F(9), F(-3))]}
TIMES = ["forward", "equal", "back", "jump", "zigzag", "small", "leap"]
DRAWS = [F(0), F(1, 2), F(63, 64), F(1, 64)]


def assigned(mode, i):
    """The clock and the draws."""
    env = {}
    base = F(1000)
    for a in range(16):
        step = {"forward": F(10), "equal": F(0), "back": F(-10), "jump": F(700), "zigzag": F(5) * (-1) ** a, "small": F(1, 1000), "leap": F(10 ** 6)}[mode]
        env[C(a)] = base + (step * (a % 2) if mode == "zigzag" else step * a)
        env[TS(a)] = base + (step * ((a + 1) % 2) if mode == "zigzag" else step * (a + 1))
        env[sym("draw%d" % a, "num")] = DRAWS[(i + a) % 4]
        env[sym("draw%d" % a, "int")] = [F(1), F(2), F(5), F(12), F(30)][(i + a) % 5]
    return env


def assignments(steps, thorough, seed, fixed=None):
    n = steps.count("u")
    vals = VALUES.get(n) or [tuple(F(random.Random(i * 7 + n).randint(-20, 40), 4) for _ in range(n)) for i in range(6)]
    rng = random.Random(seed)
    if thorough:
        vals = list(vals) + [tuple(F(rng.randint(-8, 8), rng.choice([1, 2, 4])) for _ in range(n)) for _ in range(10)]
    for i, vs in enumerate(vals):
        for j, mode in enumerate(TIMES if fixed is None else [fixed[0]]):
            env = {V(a): x for a, x in enumerate(vs)}
            env.update(assigned(mode, i + j) if fixed is None else assigned(*fixed))
            yield mode, env


def one(ctx, rep, kind, steps):
    I = interp(ctx, exact_order=kind[0] == "decaying", unroll=1100 if any(isinstance(s, int) for s in steps) else 16)
    name = kind if isinstance(kind, str) else "%s sample%s" % (kind[0].replace("_", " "), " of %d" % kind[1] if kind[1] else "")
    if not isinstance(kind, str) and len(kind) > 2:
        name += ", clock %s" % kind[2][0]
    told = "%s: %s" % (name, " ".join(s if isinstance(s, str) else "%d samples" % s for s in steps))
    capacity = kind[1] or 1028 if isinstance(kind, tuple) else 1028
    rs = ctx.explore(I, scenario(ctx, kind, steps))
    for r in rs:
        if r.kind == "undecided":
            rep.undecided("defined", told, r.value)
    raising = [r for r in rs if r.kind == "raise"]
    met = set()
    hits = misses = 0
    for mode, env in assignments(steps, ctx.thorough, ctx.seed, kind[2] if isinstance(kind, tuple) and len(kind) > 2 else None):
        hit = pick(rs, env, ctx.seed)
        if hit is None:
            misses += 1
            continue
        r, p = hit
        vals = "samples %s, clock %s" % ([num(env[V(i)]) for i in range(steps.count("u"))], mode)
        if r.kind == "raise":
            rep.violation("defined", "%s:raise" % name, "%s: raises %s for %s" % (told, r.value, vals), getattr(r.value, "where", None), path_text(r))
            return
        got = {int(e.what[3:]): e.args[0] for e in r.events if e.kind == "mark" and e.what.startswith("got")}
        try:
            expect(kind, steps, env, p, got, capacity)
        except Bad as e:
            rep.violation("defined", "%s:value" % name, "%s: %s, for %s" % (told, e, vals), where_of(I, kind), path_text(r))
            return
        except NoValue as e:
            if p.unknown_ops:
                rep.undecided("defined", told, "a value: %s" % p.unknown_ops)
                return
            rep.violation("defined", "%s:undefined" % name, "%s: %s for %s" % (told, e, vals), where_of(I, kind), path_text(r))
            return
        except Unknown as e:
            rep.undecided("defined", told, "a value: %s %s" % (e, [show(x)[:400] for x in got.values()]))
            return
        hits += 1
        met.add(id(r))
    rep.facts["assignments_on_paths"] = rep.facts.get("assignments_on_paths", 0) + hits
    rep.facts["assignments_on_no_path"] = rep.facts.get("assignments_on_no_path", 0) + misses
    for r in raising:
        rep.undecided("defined", told, "a path raises %s, at no assignment that was tried: %s" % (r.value, r.facts_text()[-3:]))
    if not hits:
        rep.undecided("defined", told, "no assignment lies on a path")
    elif not raising and not any(r.kind == "undecided" for r in rs):
        rep.ok("defined", told)


def where_of(I, kind):
    return {"timer": "txstatsd/metrics/timermetric.py", "meter": "txstatsd/metrics/metermetric.py", "gauge": "txstatsd/metrics/gaugemetric.py"}.get(
        kind, "txstatsd/metrics/histogrammetric.py" if isinstance(kind, tuple) else "txstatsd/stats/ewma.py")


def run(ctx, rep):
    jobs = []
    ends = {"timer": ["stats", "percentiles", "values", "histogram", "rate", "report"]}
    for n in range(4 if not ctx.thorough else 5):
        for s in itertools.product(("u", "clear", "report"), repeat=n):
            jobs += [("timer", list(s) + [e]) for e in ends["timer"]]
    for n in range(5):
        for s in itertools.product(("u", "report"), repeat=n):
            jobs += [("meter", list(s) + ["report"]), ("gauge", list(s) + ["report"])]
    for n in range(5):
        for s in itertools.product(("u", "tick"), repeat=n):
            jobs.append((("one minute", "five minute", "fifteen minute")[n % 3], list(s) + ["tick"]))
    for kind in (("uniform", 2), ("uniform", 5), ("decaying", 2), ("decaying", 5), ("uniform_sample", 0), ("exponentially_decaying_sample", 0)):
        for n in range(4 if kind[0] == "uniform" else 3):
            for s in itertools.product(("u", "clear"), repeat=n):
                jobs += [(kind, list(s) + [e]) for e in ("stats", "percentiles", "values", "histogram")]
    for mode in TIMES:
        for i in range(4):
            for size in (1, 2, 3):
                for s in (["u"] * 3, ["u"] * 4, ["u", "u", "u", "clear", "u", "u", "u"]) + ((["u"] * 6,) if ctx.thorough else ()):
                    jobs += [(("decaying", size, (mode, i)), s + [e]) for e in ("stats", "percentiles", "values", "histogram")[i % 2::2] if size < 3 or e == "values"]
    for size in (4, 5, 8, 9, 16, 17) + ((33, 40, 64, 65) if ctx.thorough else ()):
        for e in ("percentiles", "histogram", "stats"):
            jobs += [(k, [size, e]) for k in ("timer", ("uniform", 7, ("forward", size)), ("decaying", 7, ("forward", size)))]
    for size in (1028, 1031):
        jobs += [("timer", [size, "percentiles"]), ("timer", [size, "report"]), (("uniform_sample", 0, ("forward", 1)), [size, "histogram"])]
    jobs.sort(key=lambda j: -max([x for x in j[1] if isinstance(x, int)] + [-len(j[1])]))
    ctx.pmap(lambda js, rp: [one(ctx, rp, *j) for j in js], [jobs[i::40] for i in range(40)])
