"""C32: sequences of counts and ticks, with symbolic counts, smoothing constant and interval, are interpreted; the rate
after each tick is compared with the exponentially weighted average of the rates of the intervals."""
import itertools
import math
from checks.common import *

ASSUMPTIONS = ["numbers are exact (rounding is left out)"]
TECHNIQUE = "static analysis: abstract interpretation of symbolic histories; rate terms compared with the definition by polynomial identity at random points"
MODULE = "txstatsd.stats.ewma"
FILE = "txstatsd/stats/ewma.py"
ALPHA, EVERY = sym("cfg:alpha", "num"), sym("cfg:every", "num")
NAMED = {"one_minute_ewma": 1, "five_minute_ewma": 5, "fifteen_minute_ewma": 15}


def N(i):
    return sym("count%d" % i, "num")


def scenario(ctx, kind, steps, others):
    def sc(I):
        I.assume(I.lt0(("neg", EVERY)), True)
        cls = ctx.need_class(I, MODULE, "Ewma")

        def make():
            if kind is None:
                return I.call(cls, [ALPHA, EVERY], {}, None)
            return I.call(I.getattr(cls, kind, None), [], {}, None)
        o = make()
        other = make() if others else None
        n = 0
        I.event("mark", "rate0", [I.getattr(o, "rate", None)])
        for k, s in enumerate(steps):
            if other is not None:
                I.call(I.getattr(other, "update", None), [sym("other%d" % k, "num")], {}, None)
                I.call(I.getattr(other, "tick", None), [], {}, None)
            if s == "u":
                I.call(I.getattr(o, "update", None), [N(n)], {}, None)
                n += 1
            else:
                I.call(I.getattr(o, "tick", None), [], {}, None)
            I.event("mark", "rate%d" % (k + 1), [I.getattr(o, "rate", None)])
    return sc


def expected(kind, steps, env):
    """The rate after each step, at an assignment."""
    a, every = (env[ALPHA], env[EVERY]) if kind is None else (1 - math.exp(-5 / 60.0 / NAMED[kind]), 5)
    out, rate, pend, n = [Fraction(0)], None, Fraction(0), 0
    for s in steps:
        if s == "u":
            pend += env[N(n)]
            n += 1
        else:
            inst = pend / every
            pend = Fraction(0)
            rate = inst if rate is None else inst * a + rate * (1 - a) if kind is None else float(inst) * a + float(rate) * (1 - a)
        out.append(rate if rate is not None else Fraction(0))
    return out


def near(a, b):
    return not isinstance(a, (str, tuple)) and a is not None and abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(b)))


def one(ctx, rep, kind, steps, others):
    told = "%s: %s%s" % (kind or "any smoothing constant and interval", " ".join("update" if s == "u" else "tick" for s in steps), ", next to another average" if others else "")
    I = ctx.interp(unroll=12)
    rs = ctx.explore(I, scenario(ctx, kind, steps, others))
    rng = random.Random(ctx.seed)
    bad = [r for r in rs if r.kind == "undecided"]
    if bad:
        rep.undecided("recurrence", told, bad[0].value)
        return
    hits = 0
    for i in range(24 if ctx.thorough else 10):
        env = {N(k): Fraction(rng.choice([0, 1, 3, 12, rng.randint(1, 500)])) for k in range(len(steps))}
        env.update({sym("other%d" % k, "num"): Fraction(rng.randint(1, 90)) for k in range(len(steps))})
        env[ALPHA] = [Fraction(1, 2), Fraction(1, 10), Fraction(9, 10), Fraction(2, 25)][i % 4]
        env[EVERY] = Fraction([5, 1, 10, 60, 7][i % 5])
        hit = pick(rs, env, ctx.seed)
        if hit is None:
            continue
        r, p = hit
        counts = "counts %s, smoothing constant %s, interval %s" % ([str(env[N(k)]) for k in range(steps.count("u"))], env[ALPHA], env[EVERY]) if kind is None \
            else "counts %s" % [str(env[N(k)]) for k in range(steps.count("u"))]
        if r.kind == "raise":
            rep.violation("recurrence", "raise", "%s: raises %s, for %s" % (told, r.value, counts), getattr(r.value, "where", None), path_text(r))
            return
        got = {e.what: e.args[0] for e in r.events if e.kind == "mark" and e.what.startswith("rate")}
        for k, w in enumerate(expected(kind, steps, env)):
            try:
                v = value(p, got["rate%d" % k])
            except NoValue as e:
                rep.violation("recurrence", "undefined", "%s: no rate after step %d: %s" % (told, k, e), FILE, path_text(r))
                return
            except Unknown as e:
                rep.undecided("recurrence", told, "%s" % e)
                return
            if not near(v, w):
                rep.violation("recurrence", "rate", "%s: the rate after step %d is %s instead of %s, for %s" % (told, k, v, w, counts), FILE, path_text(r))
                return
        hits += 1
    rep.facts["assignments"] = rep.facts.get("assignments", 0) + hits
    if not hits:
        rep.undecided("recurrence", told, "no assignment lies on a path")
    else:
        rep.ok("recurrence", told)


def run(ctx, rep):
    jobs = []
    top = 7 if ctx.thorough else 5
    for n in range(top + 1):
        for s in itertools.product("ut", repeat=n):
            if n == top and s[-1] != "t":
                continue
            jobs.append((None, s, False))
            if n <= 4:
                jobs.append((None, s, True))
    for kind in NAMED:
        for s in ("t", "ut", "uut", "utt", "tut", "utut", "uttut", "tttuut", "uuttutt"):
            jobs.append((kind, tuple(s), False))
            jobs.append((kind, tuple(s), True))
    ctx.pmap(lambda js, rp: [one(ctx, rp, *j) for j in js], [jobs[i::16] for i in range(16)])
