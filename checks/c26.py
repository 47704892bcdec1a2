"""C26: histories of items with symbolic times are interpreted with drawn tables standing for the random ones; each
count is compared with the one given by the hash functions' values (as the code computes them) and the windows.  With
symbolic tables: a hash is a fixed function of the item and the table, and distinguishes the items."""
from checks.service import *
from checks.c18 import reach

ASSUMPTIONS = ["the clock does not go back", "no hash is zero (one in 2^32)", "an item seen exactly 60, 3600 or 86400 seconds ago may be counted or not"]
TECHNIQUE = "static analysis: abstract interpretation of item histories with symbolic times over drawn tables, and of the hash over symbolic tables; counts compared with the definition on each path"
DM = "txstatsd.metrics.distinctmetric"
HAZ = {"parse", "none", "key", "zerodiv", "index", "unpack", "domain"}
WINDOWS = {".count": None, ".count_1min": 60, ".count_1hour": 3600, ".count_1day": 86400}
STAMP = sym("timestamp", "int")
ITEMS = ["a", "b", "item1", "item2", "ab", "ba", "\x00", "\xff\xfe", "x" * 40, "0", "1", "a b", "foo@bar", "user-17", "\xc3\xa9", "aa", "aaa"]


def T(k):
    return sym("time%d" % k, "num")


def SINCE(k):
    return sym("since%d" % k, "num")


def table(seed):
    """Draws standing for the random ones: odd numbers shifted by 0 to 31, by few places mostly."""
    rng = random.Random(seed)

    i = [0]

    def draw(I, a, k, node):
        I.event("rand", "draw", a, node=node)
        i[0] += 1
        if seed < 0:        # the number of zeros is given by the character
            return const(((2 * rng.getrandbits(31) + 1) << (i[0] - 1) % 32) & 0xFFFFFFFF)
        n = rng.choice([0, 0, 0, 1, 1, 2, 3, 4, rng.randrange(32)])
        return const(((2 * rng.getrandbits(31) + 1) << n) & 0xFFFFFFFE | (1 if n == 0 else 0) or 2 ** 31)
    return draw


def draws(I, f):
    for n in ("random.randint", "random.randrange", "random.getrandbits"):
        I.cfg.ext[n] = f


def hash_functions(I, root):
    return sorted(i for i in reach(I, root) if I.st.heap.peek(i).kind == "inst" and any(q.endswith(".SBoxHash") for q in lineage(I, I.st.heap.peek(i).cls)))


class Case(object):
    """what: (n_hashes, n_buckets) or the number of reporters; steps: ("add", item, metric), ("ask",), ("flush", metric)."""

    def __init__(self, what, steps, seed, told, times=None):
        self.what, self.steps, self.seed, self.told, self.times = what, steps, seed, told, times
        self.items = sorted({s[1] for s in steps if s[0] in ("add", "process")})


def scenario(ctx, c):
    def run(I):
        draws(I, table(c.seed))
        now = [T(0)]
        I.assume(I.lt0(("sub", T(0), const(10 ** 9))), False)
        for k in range(len(c.steps) - 1):
            I.assume(I.lt0(("sub", T(k + 1), T(k))), False)
        at = [T(k) if c.times is None else const(float(x)) for k, x in enumerate(times_of(c) if c.times is not None else c.steps)]
        I.cfg.ext["cfg.clock"] = lambda I, a, k, n: now[0]
        I.cfg.ext["time.time"] = I.cfg.ext["cfg.clock"]
        if isinstance(c.what, tuple):
            os = [I.call(ctx.need_class(I, DM, "SlidingDistinctCounter"), [const(x) for x in c.what], {}, None)]
        else:
            cls = ctx.need_class(I, DM, "DistinctMetricReporter")
            os = [I.call(cls, [const("m%d" % i)], {"wall_time_func": ("x", "cfg.clock"), "prefix": const("p")}, None) for i in range(c.what)]
        for m, o in enumerate(os):
            hs = hash_functions(I, o)
            vals = [("tuple",) + tuple(I.call(I.getattr(("obj", h), "hash", None), [const(x)], {}, None) for x in c.items) for h in hs]
            I.event("mark", "hashes%d" % m, [("tuple",) + tuple(vals)])
        I.event("mark", "begin")
        for k, s in enumerate(c.steps):
            now[0] = at[k]
            if s[0] == "add" and isinstance(c.what, tuple):
                I.call(I.getattr(os[0], "add", None), [at[k], const(s[1])], {}, None)
            elif s[0] == "add":
                I.call(I.getattr(os[s[2]], "update", None), [const(s[1])], {}, None)
            elif s[0] == "process":
                I.call(I.getattr(os[s[2]], "process", None), [I.new_list([const(s[1]), const("pd")])], {}, None)
            elif s[0] == "ask":
                f = I.getattr(os[0], "distinct", None)
                v = [I.call(f, [], {}, None), I.call(f, [SINCE(k)], {}, None), I.call(f, [], {"since": SINCE(k)}, None)]
                I.event("mark", "got%d" % k, [("tuple",) + tuple(v)])
            elif s[0] == "flush":
                v = I.call(I.getattr(os[s[1]], "flush", None), [const(10), STAMP], {}, None)
                I.event("mark", "got%d" % k, [I.snap(v)])
        # once more
        for m, o in enumerate(os):
            vals = [("tuple",) + tuple(I.call(I.getattr(("obj", h), "hash", None), [const(x)], {}, None) for x in c.items) for h in hash_functions(I, o)]
            I.event("mark", "again%d" % m, [("tuple",) + tuple(vals)])
    return run


def hashes(r):
    """({metric: [[hash of each item] for each function]}, the same afterwards)."""
    out, again = {}, {}
    for e in r.events:
        if e.kind == "mark" and e.what.startswith(("hashes", "again")):
            to = out if e.what.startswith("hashes") else again
            rows = [list(row[1:]) for row in e.args[0][1:]]
            if any(not is_const(x) or not isinstance(x[1], (int, Fraction)) for row in rows for x in row):
                raise Unknown("a hash is not a number: %s" % [show(x)[:60] for row in rows for x in row if not is_const(x)][:1])
            to[int(e.what[6:] if to is out else e.what[5:])] = [[int(x[1]) for x in row] for row in rows]
    return out, again


def zeros(n):
    return 32 if n == 0 else (n & -n).bit_length() - 1


def estimate(c, rows, marks, since, nb):
    """rows: the hash functions; marks: [(time, item)]; since: None for ever."""
    total = 0
    for row in rows:
        b = {}
        for t, x in marks:
            b[min(nb - 1, zeros(row[c.items.index(x)]))] = t
        n = 0
        while n < nb and n in b and (since is None or b[n] > since):
            n += 1
        total += n
    return (2 ** (total / len(rows))) / 0.77351


def same(got, want):
    if got is None or isinstance(got, (str, tuple)):
        return False
    return int(want * (1 - 1e-9)) <= got <= int(want * (1 + 1e-9)) and got == int(got)


DELTAS = [0, 1, Fraction(59, 2), 59, 61, 1800, 3599, 3601, 50000, 86399, 86401, 10 ** 6]


def times_of(c):
    """Fixed times of the steps."""
    t, out = Fraction(1300000000), []
    for d in c.times:
        t += d
        out.append(t)
    return out


def assignments(c, n, seed):
    rng = random.Random(seed)
    deltas = DELTAS
    if c.times is not None:
        env = {STAMP: Fraction(rng.randint(1, 2 * 10 ** 9))}
        env.update({T(k): t for k, t in enumerate(times_of(c))})
        env.update({SINCE(k): t for k, t in enumerate(times_of(c))})
        yield env
        return
    for turn in range(n):
        env, t = {STAMP: Fraction(rng.randint(1, 2 * 10 ** 9))}, Fraction(1300000000)
        for k, s in enumerate(c.steps):
            t += rng.choice(deltas[:5] if turn % 3 == 0 else deltas)
            env[T(k)] = t
            env[SINCE(k)] = t - rng.choice([0, Fraction(1, 2), 10, 100, 2000, 4000, 90000]) + Fraction(1, 8)
        yield env


def one(ctx, rep, c):
    I = ctx.interp(hazards=set(HAZ), unroll=300, unroll_true=True)
    rs = ctx.explore(I, scenario(ctx, c), max_paths=3000)
    for r in rs:
        if r.kind == "undecided":
            rep.undecided("counts", c.told, r.value)
    hits = 0
    nb = c.what[1] if isinstance(c.what, tuple) else 32
    nh = c.what[0] if isinstance(c.what, tuple) else 32
    where = "txstatsd/metrics/distinctmetric.py"
    for env in assignments(c, 150 if ctx.thorough else 60, ctx.seed):
        hit = pick(rs, env, ctx.seed)
        if hit is None:
            continue
        r, p = hit
        about = "%s, at %s" % (c.told, [rinterp.fmtnum(env[T(k)] - 1300000000) for k in range(len(c.steps))])
        if r.kind == "raise":
            rep.violation("counts", "raise", "%s: raises %s" % (about, r.value), getattr(r.value, "where", None), path_text(r))
            return
        try:
            rows, again = hashes(r)
            for m in rows:
                if not rows[m]:
                    raise Unknown("no hash function is found in the metric")
                if rows[m] != again.get(m):
                    rep.violation("counts", "table", "%s: a hash function gives another value for the same item later on" % about, where, path_text(r))
                    return
                if len(rows[m]) != nh:
                    rep.violation("counts", "functions", "%s: there are %d hash functions instead of %d" % (about, len(rows[m]), nh), where, path_text(r))
                    return
            for e in r.events:
                if e.kind != "mark" or not e.what.startswith("got"):
                    continue
                k = int(e.what[3:])
                s = c.steps[k]
                if s[0] == "ask":
                    marks = [(env[T(j)], x[1]) for j, x in enumerate(c.steps[:k]) if x[0] == "add"]
                    for what, since, t in (("the total", None, e.args[0][1]), ("since", env[SINCE(k)], e.args[0][2]), ("since", env[SINCE(k)], e.args[0][3])):
                        if any(x == since for x, _ in marks):
                            continue
                        got, want = value(p, t), estimate(c, rows[0], marks, since, nb)
                        if not same(got, want):
                            rep.violation("counts", "estimate", "%s: the count (%s%s) is %s instead of %d" % (
                                about, what, "" if since is None else " %s" % rinterp.fmtnum(since - 1300000000), got if not isinstance(got, Fraction) else rinterp.fmtnum(got), want), where, path_text(r))
                            return
                    continue
                m, now = s[1], env[T(k)]
                marks = [(env[T(j)], x[1]) for j, x in enumerate(c.steps[:k]) if x[0] != "flush" and x[2] == m]
                seen = {}
                for it in listed(r.state.heap, e.args[0]) or []:
                    it = ("tuple",) + tuple(listed(r.state.heap, it) or ())
                    if len(it) != 4:
                        raise Unknown("item %s" % show(it)[:60])
                    name = value(p, it[1])
                    if name in seen:
                        rep.violation("counts", "duplicate", "%s: %s is reported twice" % (about, name), where, path_text(r))
                        return
                    seen[name] = value(p, it[2])
                    if value(p, it[3]) != env[STAMP]:
                        rep.violation("counts", "timestamp", "%s: %s has another timestamp" % (about, name), where, path_text(r))
                        return
                names = {"p.m%d%s" % (m, w): w for w in WINDOWS}
                if set(seen) != set(names):
                    rep.violation("counts", "names", "%s: reports %s" % (about, sorted(seen)), where, path_text(r))
                    return
                for name, w in sorted(names.items()):
                    since = None if WINDOWS[w] is None else now - WINDOWS[w]
                    if any(x == since for x, _ in marks):
                        continue
                    want = estimate(c, rows[m], marks, since, nb)
                    if not same(seen[name], want):
                        rep.violation("counts", "estimate", "%s: flush at step %d: %s is %s instead of %d" % (about, k + 1, name, seen[name], want), where, path_text(r))
                        return
        except (NoValue, Unknown) as e:
            rep.undecided("counts", c.told, "a value: %s" % e)
            return
        hits += 1
    rep.facts["assignments_on_paths"] = rep.facts.get("assignments_on_paths", 0) + hits
    if not hits:
        rep.undecided("counts", c.told, "no assignment lies on a path")
    elif not any(r.kind == "undecided" for r in rs):
        rep.ok("counts", c.told)


def cases(thorough):
    seed = 0
    for what in ((1, 1), (1, 2), (1, 4), (2, 3), (3, 32), (1, 32), (4, 8)):
        for items in ([], ["a"], ["a", "a"], ["a", "b"], ["item1", "item2", "item1"], ["\x00", "\xff\xfe", "x" * 40], ["ab", "ba", "a b"], ["0", "1", "aa", "aaa"]):
            for n in range(3 if not thorough else 8):
                seed += 1
                steps = [("add", x, 0) for x in items]
                if what[0] < 4:
                    steps.insert(len(steps) // 2 + n % 2, ("ask",))
                yield Case(what, steps + [("ask",)], seed, "a counter of %d hashes and %d buckets, items %r, draws %d" % (what + (items, seed)))
    for n in range(2 if not thorough else 4):
        for items in ([], ["a"], ["foo@bar"]):
            seed += 1
            steps = [("add" if (i + n) % 2 else "process", x, 0) for i, x in enumerate(items)]
            yield Case(1, steps + [("flush", 0)], seed, "a metric with items %r, draws %d" % (items, seed))
    rows = [chr(i) for i in range(32)]
    for k, told in enumerate(("in order", "reversed", "without the last", "without one", "twice")):
        xs = [rows, rows[::-1], rows[:31], rows[:17] + rows[18:], rows + rows[:20]][k]
        steps = [("add", x, 0) for x in xs] + [("flush", 0)]
        yield Case(1, steps, -1 - k, "items for every bucket, %s" % told, [0] * len(steps))
        yield Case(1, steps, -1 - k, "items for every bucket, %s, two hours apart" % told, [7200] * len(steps))
    for d in (Fraction(1, 2), 59, Fraction(239, 4), Fraction(241, 4), 61, 90, 3599, Fraction(14399, 4), Fraction(14401, 4), 3601, 7200, 43200, 86399, Fraction(345599, 4), Fraction(345601, 4), 86401, 172800, 10 ** 6, 3 * 10 ** 6, 4 * 10 ** 7, 10 ** 9):
        for d2 in (0, d, 10 ** 7):
            yield Case(1, [("add", rows[0], 0), ("flush", 0), ("add", rows[1], 0), ("flush", 0)], -1, "an item, a flush %s s later, another item and a flush %s s after them" % (rinterp.fmtnum(Fraction(d)), rinterp.fmtnum(Fraction(d2))), [0, d, 0, d2])
        for told, steps, times in (("the item again", [("add", rows[0], 0), ("add", rows[0], 0), ("flush", 0)], [0, d, 30]),
                                   ("the item again with another between", [("process", rows[0], 0), ("process", rows[1], 0), ("process", rows[0], 0), ("flush", 0)], [0, d, 1, 30])):
            yield Case(1, steps, -1, "an item, %s %s s later, a flush" % (told, rinterp.fmtnum(Fraction(d))), times)
    rng = random.Random(7)
    for n in range(40 if not thorough else 400):
        seed += 1
        metrics = 1 + (n % 3 == 0)
        steps = [rng.choice([("add", rng.choice(ITEMS), rng.randrange(metrics)), ("process", rng.choice(ITEMS), rng.randrange(metrics)), ("add", rng.choice(ITEMS[:2]), rng.randrange(metrics)), ("flush", rng.randrange(metrics))]) for _ in range(rng.randint(1, 8))]
        steps += [("flush", m) for m in range(metrics)]
        times = [rng.choice(DELTAS if n % 2 else DELTAS[:6]) for _ in steps]
        yield Case(metrics, steps, seed, "%d metrics: %s, draws %d" % (metrics, " ".join("%s %s" % (s[0], s[1:]) for s in steps), seed), times)


# ------------------------------------------------------------------ symbolic tables
def purity(ctx, rep, items):
    I = ctx.interp(hazards=set(HAZ), unroll=300, unroll_true=True)
    where = "txstatsd/metrics/distinctmetric.py"
    n = [0]

    def draw(I, a, k, node):
        I.event("rand", "draw", list(a), node=node)
        n[0] += 1
        return sym("draw%d" % (n[0] - 1), "int")

    def sc(I):
        n[0] = 0
        draws(I, draw)
        cls = ctx.need_class(I, DM, "SBoxHash")
        hs = [I.call(cls, [], {}, None) for _ in range(2)]
        for i, h in enumerate(hs):
            for turn in range(2):
                for k, x in enumerate(items):
                    I.event("mark", "hashing")
                    I.event("mark", "hash", [const(i), const(turn), const(k), I.call(I.getattr(h, "hash", None), [const(x)], {}, None)])
    for r in ctx.explore(I, sc):
        if r.kind == "undecided":
            rep.undecided("hash", "purity", r.value)
            return
        if r.kind == "raise":
            rep.violation("hash", "raise", "hashing %r raises %s" % (items, r.value), getattr(r.value, "where", None), path_text(r))
            return
        vals, on = {}, False
        for e in flat_events(r.events):
            if e.kind == "mark":
                on = e.what == "hashing"
                if e.what == "hash":
                    i, t, k, v = e.args
                    vals[i[1], t[1], k[1]] = v
            elif e.kind == "rand":
                if on:
                    rep.violation("hash", "table", "hashing an item draws random numbers", e.where, path_text(r))
                    return
        outs = {}
        for seed in range(6):
            rng = random.Random(seed)
            p = Point(rng, {sym("draw%d" % i, "int"): Fraction(rng.getrandbits(32)) for i in range(n[0] + 1)})
            try:
                for key, t in vals.items():
                    outs.setdefault(key, []).append(value(p, t))
            except (NoValue, Unknown) as e:
                rep.undecided("hash", "values", str(e))
                return
        for (i, turn, k), v in sorted(outs.items()):
            if turn and v != outs[i, 0, k]:
                rep.violation("hash", "table", "the item %r has another hash the second time" % items[k], where, path_text(r))
                return
        for k, x in enumerate(items):
            if x and outs[0, 0, k] == outs[1, 0, k]:
                rep.violation("hash", "independent", "two hash functions give the same hashes for %r, whatever is drawn" % x, where, path_text(r))
                return
            for j in range(k):
                if outs[0, 0, k] == outs[0, 0, j]:
                    rep.violation("hash", "collision", "the items %r and %r have the same hash, whatever is drawn" % (items[j], x), where, path_text(r))
                    return
            if x and max(outs[0, 0, k]) < 2 ** 24:
                rep.violation("hash", "bits", "the hashes of %r are below %d, whatever is drawn" % (x, 2 ** 24), where, path_text(r))
                return
            if x and any(v < 0 or v != int(v) for v in outs[0, 0, k]):
                rep.violation("hash", "bits", "a hash of %r is %s" % (x, rinterp.fmtnum([v for v in outs[0, 0, k] if v < 0 or v != int(v)][0])), where, path_text(r))
                return
        for e in flat_events(r.events):
            if e.kind == "rand" and len(e.args) == 2 and all(is_const(x) for x in e.args):
                lo, hi = [x[1] for x in e.args]
                if hi - lo < 2 ** 31:
                    rep.violation("hash", "range", "the tables hold numbers from %d to %d only" % (lo, hi), e.where, path_text(r))
                    return
    rep.ok("hash", "%d items" % len(items))


def zero_counts(ctx, rep):
    I = ctx.interp(hazards=set(HAZ), unroll=300, unroll_true=True)
    rng = random.Random(ctx.seed)
    ns = sorted({((2 * rng.getrandbits(31 - k) + 1) << k) & 0xFFFFFFFF for k in range(32) for _ in range(4)} | {1 << k for k in range(32)} | {2 ** 32 - 1, 2 ** 32 - 2, 12, 96})

    def sc(I):
        f = ctx.need_function(I, DM, "zeros")
        for x in ns:
            I.event("mark", "zeros", [const(x), I.call(f, [const(x)], {}, None)])
    for r in ctx.explore(I, sc):
        if r.kind != "ok":
            (rep.undecided if r.kind == "undecided" else rep.violation)("hash", "zeros", "%s" % r.value)
            return
        for e in r.events:
            if e.kind == "mark" and e.what == "zeros":
                x, v = e.args
                if not is_const(v):
                    rep.undecided("hash", "zeros", "of %d: %s" % (x[1], show(v)[:60]))
                    return
                if v[1] != zeros(x[1]):
                    rep.violation("hash", "zeros", "%d has %s trailing zeros instead of %d" % (x[1], v[1], zeros(x[1])), "txstatsd/metrics/distinctmetric.py", path_text(r))
                    return
    rep.ok("hash", "trailing zeros of %d numbers" % len(ns))


def job(ctx, rep, j):
    if j[0] == "case":
        one(ctx, rep, j[1])
    elif j[0] == "purity":
        purity(ctx, rep, j[1])
    else:
        zero_counts(ctx, rep)


def run(ctx, rep):
    jobs = [("zeros",), ("purity", ["a", "b", "ab", "ba", "aa", "aaa", "abc", "acb", "bca"]), ("purity", [x for x in ITEMS if len(x) < 20]),
            ("purity", ["x" * 40, "x" * 39, "x" * 39 + "y", "y" + "x" * 39, "x" * 20 + "y" + "x" * 19]), ("purity", ["user:1", "user:2", "user:12", "user:21", "1", "12", "21", "A", "a"])]
    jobs += [("case", c) for c in cases(ctx.thorough)]
    ctx.pmap(lambda js, rp: [job(ctx, rp, x) for x in js], [jobs[i::48] for i in range(48)])
