"""C41: the reservoirs are interpreted on histories of distinct samples.  For the uniform one every draw of the
random source is a choice of equally likely values, so the paths enumerate the distribution: each sample must be kept
with probability size/count.  For the decaying one the samples kept must be those with the greatest documented
weights, exp(alpha * time) over a uniform draw, whenever the reservoir is rescaled."""
import itertools
import math
from checks.common import *

ASSUMPTIONS = ["the random source is uniform and its draws are independent", "weights are exact (rounding is left out): times span at most a few hours"]
TECHNIQUE = "static analysis: abstract interpretation with draws as non-deterministic choices; the distribution over the paths, and the samples kept, are compared with the documented ones"
UNI = ("txstatsd.stats.uniformsample", "UniformSample")
DEC = ("txstatsd.stats.exponentiallydecayingsample", "ExponentiallyDecayingSample")
FILE = {"uniform": "txstatsd/stats/uniformsample.py", "decaying": "txstatsd/stats/exponentiallydecayingsample.py"}


def points(lo, hi, n):
    """n equally likely integers that stand for lo..hi, both by their share of the range and by their residue."""
    size = hi - lo + 1
    if size <= max(n, 40):
        return list(range(lo, hi + 1))
    out = []
    for j in range(n):
        v = lo + size * j // n
        out.append(v + (j - v) % n)
    return out


def sources(I, now):
    """The random source: now() gives the number of points a wide range is represented by; draws are noted."""
    def note(v, m):
        I.event("mark", "draw", [const(v), const(m)])
        return const(v)

    def ints(I, lo, hi, node):
        lo, hi = (x[1] if is_const(x) and isinstance(x[1], int) else None for x in (lo, hi))
        if lo is None or hi is None or hi < lo:
            raise Undecided("a draw between bounds that are not known")
        ps = points(lo, hi, now())
        return note(ps[I.choose(len(ps))], len(ps))
    I.cfg.ext["random.randint"] = lambda I, a, k, node: ints(I, a[0], a[1], node)
    I.cfg.ext["random.randrange"] = lambda I, a, k, node: ints(I, const(0) if len(a) == 1 else a[0], const((a[0] if len(a) == 1 else a[1])[1] - 1), node)

    def unit(I, a, k, node):
        n = now()
        return note((I.choose(n) + 0.5) / n, n)
    I.cfg.ext["random.random"] = unit


def uniform(ctx, rep, size, steps):
    """steps: 'u' or 'clear'."""
    told = "uniform sample of %d: %s" % (size, " ".join(steps))

    def sc(I):
        n = [0]
        sources(I, lambda: max(n[0], 1))
        o = I.call(ctx.need_class(I, *UNI), [const(size)], {}, None)
        for k, s in enumerate(steps):
            if s == "u":
                n[0] += 1
                I.call(I.getattr(o, "update", None), [const(1000 + k)], {}, None)
            else:
                n[0] = 0
                I.call(I.getattr(o, "clear", None), [], {}, None)
        I.event("mark", "kept", [I.snap(I.call(I.getattr(o, "get_values", None), [], {}, None))])
    I = ctx.interp(unroll=16)
    seen = [1000 + k for k, s in enumerate(steps) if s == "u" and "clear" not in steps[k:]]
    share, total, why = {}, Fraction(0), None
    for r in ctx.explore(I, sc, max_paths=4000):
        if r.kind != "ok":
            why = r.value
            if r.kind == "raise":
                rep.violation("uniform", "raise", "%s: raises %s" % (told, r.value), getattr(r.value, "where", None), path_text(r))
                return
            continue
        p = Fraction(1)
        for e in r.events:
            if e.kind == "mark" and e.what == "draw":
                p /= int(e.args[1][1])
        kept = as_list([e for e in r.events if e.kind == "mark" and e.what == "kept"][-1].args[0])
        if kept is None:
            why = "the values kept are not known"
            continue
        if len(kept) != min(size, len(seen)) or len(set(kept)) != len(kept) or any(x not in seen for x in kept):
            rep.violation("uniform", "kept", "%s: the samples %s leave %s in the reservoir" % (told, seen, kept), FILE["uniform"], path_text(r))
            return
        total += p
        for x in kept:
            share[x] = share.get(x, 0) + p
    if why is not None or total != 1:
        rep.undecided("uniform", told, why or "the paths have a probability of %s in all" % total)
        return
    want = min(Fraction(1), Fraction(size, len(seen))) if seen else None
    for i, x in enumerate(seen):
        if abs(share.get(x, 0) - want) > Fraction(1, 10 ** 6):
            rep.violation("uniform", "probability", "%s: sample %d of %d is kept with probability %s instead of %s" % (
                told, i + 1, len(seen), share.get(x, 0), want), FILE["uniform"], None)
            return
    rep.ok("uniform", told)


def as_list(v):
    if v[0] not in ("list", "tuple") or not all(is_const(x) for x in v[1:]):
        return None
    return [x[1] for x in v[1:]]


def decaying(ctx, rep, size, alpha, steps, told):
    """steps: ('u', time, draw), ('at', time, draw, timestamp) or ('clear', time)."""
    def sc(I):
        t = [const(steps[0][1] if steps else 0)]
        draw = [None]
        I.cfg.ext["cfg.clock"] = lambda I, a, k, node: t[0]
        I.cfg.ext["time.time"] = lambda I, a, k, node: t[0]
        asked = [0]

        def unit(I, a, k, node):
            asked[0] += 1
            if draw[0] is None or asked[0] > 1:
                raise Undecided("more than one draw for a sample")
            return const(draw[0])
        I.cfg.ext["random.random"] = unit
        kw = {"wall_time": ("x", "cfg.clock")} if len(steps) % 2 else {}
        o = I.call(ctx.need_class(I, *DEC), [const(size), const(alpha)], kw, None)
        for k, s in enumerate(steps):
            t[0] = const(s[1])
            draw[0], asked[0] = (s[2] if len(s) > 2 else None), 0
            if s[0] == "clear":
                I.call(I.getattr(o, "clear", None), [], {}, None)
            else:
                # values that fall while the weights rise, so that neither stands for the other
                I.call(I.getattr(o, "update", None), [const(value_of(k))] + ([const(s[3])] if s[0] == "at" else []), {}, None)
        I.event("mark", "kept", [I.snap(I.call(I.getattr(o, "get_values", None), [], {}, None))])
    I = ctx.interp(exact_order=True, unroll=64)
    weights = [{}, {}]
    for k, s in enumerate(steps):
        if s[0] == "clear":
            weights = [{}, {}]
        else:
            at = s[3] if s[0] == "at" else s[1]
            weights[0][value_of(k)] = alpha * at - math.log(1 - s[2])
            weights[1][value_of(k)] = alpha * at - math.log(s[2])
    for r in ctx.explore(I, sc):
        if r.kind == "raise":
            rep.violation("decaying", "raise", "%s: raises %s" % (told, r.value), getattr(r.value, "where", None), path_text(r))
            return
        if r.kind != "ok":
            rep.undecided("decaying", told, r.value)
            return
        kept = as_list([e for e in r.events if e.kind == "mark" and e.what == "kept"][-1].args[0])
        if kept is None:
            rep.undecided("decaying", told, "the values kept are not known")
            return
        best = [sorted(sorted(w, key=w.get)[-size:]) for w in weights]
        if sorted(kept) not in best:
            rep.violation("decaying", "kept", "%s: the reservoir holds %s instead of %s, the samples with the greatest weights" % (
                told, sorted(kept), best[0]), FILE["decaying"], path_text(r))
            return
    rep.ok("decaying", told)


def value_of(k):
    return 500 + (k * 37) % 101


def documented(ctx, rep, gap, stays):
    """The default decaying reservoir: 1028 samples, alpha 0.015.  1028 samples of which the least has the weight
    of 153.5 seconds at that alpha, and one more without a weight of its own, gap seconds later."""
    told = "default decaying sample: 1028 samples, the least of weight 10, and one of weight 1 %d s later" % gap

    def sc(I):
        t, draw = [1000.0], [0.9]
        I.cfg.ext["time.time"] = lambda I, a, k, node: const(t[0])
        I.cfg.ext["random.random"] = lambda I, a, k, node: const(draw[0])
        cls = ctx.need_class(I, "txstatsd.metrics.histogrammetric", "HistogramMetricReporter")
        o = I.call(I.getattr(cls, "using_exponentially_decaying_sample", None), [], {}, None)
        f = I.getattr(o, "update", None)
        for i in range(1028):
            I.call(f, [const(5000 - i)], {}, None)
            draw[0] = 0.96 + (i * 7 % 1000) / 40000.0
        I.event("mark", "full", [I.snap(I.call(I.getattr(o, "get_values", None), [], {}, None))])
        t[0], draw[0] = t[0] + gap, 0.0
        I.call(f, [const(77)], {}, None)
        I.event("mark", "kept", [I.snap(I.call(I.getattr(o, "get_values", None), [], {}, None))])
    I = ctx.interp(exact_order=True, unroll=1100)
    for r in ctx.explore(I, sc):
        if r.kind == "raise":
            rep.violation("documented", "raise", "%s: raises %s" % (told, r.value), getattr(r.value, "where", None), path_text(r))
            return
        if r.kind != "ok":
            rep.undecided("documented", told, r.value)
            return
        full, kept = [as_list([e for e in r.events if e.kind == "mark" and e.what == w][-1].args[0]) for w in ("full", "kept")]
        if full is None or kept is None:
            rep.undecided("documented", told, "the values kept are not known")
            return
        everything = [5000 - i for i in range(1028)]
        if sorted(full) != sorted(everything):
            rep.violation("documented", "size", "%s: %d of the first 1028 are kept" % (told, len(full)), "txstatsd/metrics/histogrammetric.py", None)
            return
        want = everything[1:] + [77] if stays else everything
        if sorted(kept) != sorted(want):
            rep.violation("documented", "alpha", "%s: the last sample is %skept, the least is %skept" % (
                told, "" if 77 in kept else "not ", "" if 5000 in kept else "not "), "txstatsd/metrics/histogrammetric.py", None)
            return
    rep.ok("documented", told)


# draws whose weights differ clearly; u and 1-u both appear
DRAWS = [0.5, 0.9, 0.1, 0.99, 0.3, 0.7, 0.02, 0.8, 0.2, 0.97, 0.6, 0.4]
GAPS = {"at once": [0], "seconds": [1, 3, 0, 7], "minutes": [60, 200, 31], "around a rescale": [299, 299, 3, 1], "a rescale each": [601, 700], "exactly a rescale": [600], "an hour": [3600, 1],
        "back": [50, -20, -3, 400], "back over a rescale": [590, 20, -300, 2]}


def clear_cut(size, alpha, steps):
    """No two weights so close that the order of the samples turns on rounding."""
    w = sorted(alpha * (s[3] if s[0] == "at" else s[1]) - math.log(x) for s in steps if s[0] != "clear" for x in (1 - s[2],))
    v = sorted(alpha * (s[3] if s[0] == "at" else s[1]) - math.log(s[2]) for s in steps if s[0] != "clear")
    return all(b - a > 1e-3 for a, b in list(zip(w, w[1:])) + list(zip(v, v[1:])))


def histories(thorough, seed):
    rng = random.Random(seed)
    for alpha in (0.015, 0.001, 0.1) if thorough else (0.015, 0.001):
        for name in sorted(GAPS):
            for size in (1, 2, 3, 5):
                for kind in ("plain", "given", "clear"):
                    for rep_ in range(12 if thorough else 2):
                        n = size + rng.randint(1, 6)
                        t, steps = 1000.0, []
                        for k in range(n):
                            t += GAPS[name][k % len(GAPS[name])]
                            u = rng.choice(DRAWS) + rng.randint(0, 400) / 1e5
                            if kind == "given" and k % 3 == 1:
                                steps.append(("at", t, u, t - rng.choice([0, 5, 100, 700])))
                            else:
                                steps.append(("u", t, u))
                            if kind == "clear" and k == size // 2:
                                steps.append(("clear", t + 2))
                                t += 2
                        if clear_cut(size, alpha, steps):
                            yield size, alpha, steps, "decaying sample of %d, alpha %s, %s between samples%s: %s" % (
                                size, alpha, name, {"plain": "", "given": ", some with given times", "clear": ", cleared once"}[kind],
                                " ".join("%s@%g" % (s[0], s[1] - 1000) for s in steps))


def run(ctx, rep):
    jobs = []
    deep = {1: 5, 2: 5, 3: 6, 5: 7}
    if ctx.thorough:
        deep = {1: 6, 2: 6, 3: 7, 4: 8, 5: 8}
    for size, top in deep.items():
        for n in range(top + 1):
            jobs.append(("uniform", size, ("u",) * n))
    for size in (1, 2):
        jobs += [("uniform", size, ("u", "clear") + ("u",) * (size + 2)), ("uniform", size, ("u",) * (size + 1) + ("clear",)),
                 ("uniform", size, ("u",) * (size + 1) + ("clear", "u"))]
    ds = list(histories(ctx.thorough, ctx.seed))
    jobs = [("documented", 150, False), ("documented", 157, True)] + jobs + [("decaying", ds[i::32]) for i in range(32)]

    def job(j, rp):
        if j[0] == "uniform":
            uniform(ctx, rp, *j[1:])
        elif j[0] == "documented":
            documented(ctx, rp, *j[1:])
        else:
            for d in j[1]:
                decaying(ctx, rp, *d)
    ctx.pmap(job, jobs)
