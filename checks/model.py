"""Histories of samples and flushes over symbolic names and values, and what they should report."""
import math
import random
from fractions import Fraction

from checks.common import *

VALUES = ["1", "0", "3", "-2.5", "0.125", "7.75", "1e3", " 4", "+7", "12345678901", "2.5", "10"]
RATES = ["@0.5", "@1", "@.25", "@0.125", "@2", "@10"]
SIZES = ["2", "0.5", "3"]
NAMES = ["Z9", "a", "b.c", "req-time_x", "Z9", "n1", "Long.name.of-a_Metric", "count", "x.count", "0", "host.value"]
PAIRS = [("a", "A"), ("a.b", "a"), ("a.b", "a_b"), ("ab", "a-b"), ("x", "x.count"), ("a", "aa"), ("x1", "x2"), ("a.c", "b.c")]
FLUSH_KINDS = ("counter", "timer", "gauge", "meter", "plugin")


def configured(x):
    while x[0] in ("attr", "getattr") and isinstance(x[1], tuple):
        x = x[1]
    return x[0] == "sym" and x[1].startswith("cfg:")


class History(object):
    """A processor that received samples (type, name id[, 'third']) between flushes ('flush')."""

    def __init__(self, ctx, kind, steps, prefix="cfg", I=None):
        self.ctx, self.kind, self.steps, self.prefix = ctx, kind, steps, prefix
        self.I = I or ctx.interp()
        self.make = make_processor(ctx, kind, prefix)
        self.ids = sorted({s[1] for s in steps if s != "flush"})
        self.key = {i: sym("name%s" % i, "str") for i in self.ids}
        self.paths = ctx.explore(self.I, self.scenario)

    def val(self, n):
        return sym("value%d" % n, "str")

    def third(self, n):
        return sym("third%d" % n, "str")

    def message(self, n):
        return sym("message%d" % n, "str")

    def scenario(self, I):
        o = self.make(I)
        label_root(I, o)
        ks = [self.key[i] for i in self.ids]
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                I.assume(I.eq_atom(a, b), False)
        self.well_formed(I)
        start_mark(I)
        for n, s in enumerate(self.steps):
            I.event("mark", "step%d" % n)
            if s == "flush":
                flush_op(I, o)
                I.event("mark", "flushed%d" % n, [I.getattr(o, "last_flush_duration", None), I.getattr(o, "last_process_duration", None)])
                continue
            f = [self.val(n), const(s[0])] + ([self.third(n)] if len(s) > 2 else [])
            I.call(I.getattr(o, "process_message", None), [self.message(n), const(s[0]), self.key[s[1]], I.new_list(f)], {}, None)
        I.event("mark", "end")
        return o

    def well_formed(self, I):
        """Values of the built-in types are finite numbers."""
        for n, s in enumerate(self.steps):
            if s != "flush" and s[0] in BUILTIN_TYPES:
                v = self.val(n)
                I.assume(("isnum", v), True)
                I.assume(("isnan", ("float", v)), False)
                I.assume(("isinf", ("float", v)), False)

    def assignment(self, rng, turn=0):
        env = {INTERVAL: Fraction(rng.choice([1000, 10000, 60000, 500, 1500, 250, 10500, 7])),
               PERCENT: Fraction(rng.choice([90, 95, 50, 99, 75, 60, 80]))}
        names = rng.sample(NAMES, len(self.ids))
        if len(self.ids) == 1:
            names = [NAMES[turn % len(NAMES)]]
        elif len(self.ids) == 2 and turn % 2:
            names = list(PAIRS[turn // 2 % len(PAIRS)])
        for i, n in zip(self.ids, names):
            env[self.key[i]] = n
        for n, s in enumerate(self.steps):
            if s == "flush":
                continue
            env[self.message(n)] = "MSG%d" % n
            env[self.val(n)] = rng.choice(VALUES)
            if s[0] == "sli" and rng.random() < .3:
                env[self.val(n)] = "error"
            if len(s) > 2:
                env[self.third(n)] = rng.choice(RATES if s[0] == "c" else SIZES)
        env[sym("cfg:message_prefix", "str")] = "pre.fix"
        env[sym("cfg:internal_prefix", "str")] = rng.choice(["int.", "int.stats."])
        return env

    def points(self, n=30, seed=1, clock=None):
        """(path, point) for random assignments, each on the path it takes; clock: seconds between two readings of it."""
        rng = random.Random(seed)
        out = []
        for turn in range(n):
            env = self.assignment(rng, turn)
            if clock is not None:
                env["#t0"], env["#dt"] = Fraction(2000001, 2), Fraction(clock)
            st = rng.getrandbits(32)
            hit = None
            for r in self.paths:
                if r.kind == "undecided":
                    continue
                p = Point(random.Random(st), env)
                p.approx = True
                p.given = env
                ok = True
                for at, v in r.facts.log:
                    fv = rinterp.free(at)
                    if fv and all(configured(x) and x not in env for x in fv):
                        continue
                    try:
                        if bool(p.ev(at)) != v:
                            ok = False
                            break
                    except (NoValue, Unknown):
                        ok = False
                        break
                if ok and not p.unknown_ops:
                    hit = (r, p)
                    break
            out.append(hit)
        return out

    def tell(self, p):
        parts = []
        for n, s in enumerate(self.steps):
            if s == "flush":
                parts.append("flush(interval=%s)" % rinterp.fmtnum(p.ev(INTERVAL)))
            else:
                m = "%s:%s|%s" % (p.ev(self.key[s[1]]), p.ev(self.val(n)), s[0])
                if len(s) > 2:
                    m += "|" + p.ev(self.third(n))
                parts.append(m)
        return "; ".join(parts)


def stages(r):
    """Events of a path per step: {step: [events]}; loops flattened as they are."""
    out, cur = {}, None
    for e in r.events:
        if e.kind == "mark" and e.what.startswith("step"):
            cur = int(e.what[4:])
            out[cur] = []
        elif e.kind == "mark" and e.what == "end":
            cur = None
        elif cur is not None:
            out[cur].append(e)
    return out


class Flushed(object):
    """The datapoints of one flush at a point."""

    def __init__(self, events, p):
        self.items = []         # (path, value, ts, index, event)
        self.times = []         # (index, value)
        self.bad = []
        self.opaque = False
        self.last = None
        known = set(p.given)

        def understood(t):
            return all(x in known or x[0] == "now" for x in rinterp.free(t))
        for i, e in enumerate(events):
            if e.kind == "time":
                self.times.append((i, p.ev(e.args[0]) if e.args else None))
            elif e.kind == "yield":
                t = e.args[0]
                if t[0] != "tuple" or len(t) != 4:
                    self.bad.append((e, "not a (path, value, timestamp) triple: %s" % show(t)[:120]))
                    continue
                vals = []
                for x in t[1:]:
                    try:
                        p.unknown_ops = set()
                        v = p.ev(x)
                        vals.append(("?", show(x)) if p.unknown_ops or not understood(x) else v)
                    except NoValue as ex:
                        vals.append(("!", show(x)))
                    except Unknown:
                        vals.append(("?", show(x)))
                self.items.append(tuple(vals) + (i, e))
            elif e.kind == "loop":
                if any(x.kind == "yield" for x in all_events([e])):
                    self.opaque = True
            elif e.kind == "mark" and e.what.startswith("flushed"):
                self.last = []
                for x in e.args:
                    try:
                        self.last.append(p.ev(x))
                    except (NoValue, Unknown):
                        self.last.append(None)


def num_eq(a, b):
    if isinstance(a, (tuple, str)) or isinstance(b, (tuple, str)) or a is None or b is None:
        return a == b
    a, b = float(a), float(b)
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def percentile(values, q):
    values = sorted(values)
    pos = Fraction(str(q)) * (len(values) + 1)
    if pos < 1:
        return values[0]
    if pos >= len(values):
        return values[-1]
    lo, hi = values[int(pos) - 1], values[int(pos)]
    return lo + (pos - math.floor(pos)) * (hi - lo)


class Expected(dict):
    """Two metrics of different types may share a path: either value is right for it."""

    def __setitem__(self, path, x):
        if path in self:
            y = self[path]
            vals = None if x[2] is None or y[2] is None else y[2] + x[2]
            x = (y[0], y[1], vals, len(x) > 3 and x[3] and len(y) > 3 and y[3], y[4] + 1 if len(y) > 4 else 2)
        dict.__setitem__(self, path, x)


class Reference(object):
    """What a processor of a kind should report."""

    def __init__(self, kind, prefix, point):
        self.kind = "configurable" if kind == "logging" else kind
        self.p = point
        if kind == "compliant":
            self.internal = "statsd."
        elif prefix == "none":
            self.pre, self.internal = "", "statsd."
        elif prefix == "both":
            self.pre = point.ev(sym("cfg:message_prefix", "str")) + "."
            self.internal = point.ev(sym("cfg:internal_prefix", "str"))
        else:
            self.pre = point.ev(sym("cfg:message_prefix", "str")) + "."
            self.internal = self.pre + "statsd."
        self.c, self.g, self.m, self.t, self.sli, self.pd = {}, {}, {}, {}, {}, {}
        self.received = {}
        self.ambiguous = False

    def sample(self, t, key, value, third, times):
        v = None if t in ("sli", "pd") else rinterp.frac(float(value))
        if t == "c":
            if self.kind == "compliant":
                rate = Fraction(1) if third is None else rinterp.frac(float(third[1:]))
                self.c[key] = self.c.get(key, Fraction(0)) + v / rate
            else:
                self.c[key] = v
        elif t == "g":
            self.g[key] = v
        elif t == "m":
            m = self.m.setdefault(key, {"value": Fraction(0), "count": Fraction(0), "prev": list(times)})
            m["value"] += v
        elif t == "ms":
            if self.kind == "compliant":
                self.t.setdefault(key, []).append(v)
            else:
                m = self.t.setdefault(key, {"values": [], "count": 0, "prev": list(times)})
                m["count"] += 1
                if v >= 0:
                    m["values"].append(v)
        elif t == "sli":
            m = self.sli.setdefault(key, [0, 0])
            m[0] += 1
            m[1] += value == "error"
        else:
            self.pd.setdefault(key, []).append(value)
        self.received.setdefault(t, []).append(times)

    def flush(self, interval, percent, ts):
        """{path: (group kind, stat, [acceptable values] or None)}, {kind: groups}."""
        out, groups = Expected(), dict.fromkeys(FLUSH_KINDS, 0)
        sec = interval / 1000
        ANY = None
        if self.kind == "compliant":
            for k, v in self.c.items():
                out["stats." + k] = ("counter", "rate", [v / sec])
                out["stats_counts." + k] = ("counter", "count", [v])
                groups["counter"] += 1
                self.c[k] = Fraction(0)
            for k, vs in self.t.items():
                if not vs:
                    continue
                vs = sorted(vs)
                n = len(vs)
                keep = vs
                if n > 1:
                    cut = int(rinterp.pyround((100 - percent) / 100 * n))
                    keep = vs[:n - cut]
                pre = "stats.timers." + k
                vals = {".lower": vs[0], ".upper": vs[-1], ".count": n}
                if keep:
                    vals[".upper_%s" % rinterp.fmtnum(percent)] = keep[-1]
                    vals[".mean"] = sum(keep) / len(keep)
                else:
                    vals[".upper_%s" % rinterp.fmtnum(percent)] = vals[".mean"] = None
                for s, v in vals.items():
                    out[pre + s] = ("timer", s, None if v is None else [v])
                groups["timer"] += 1
                self.t[k] = []
            for k, v in self.g.items():
                out["stats.gauge.%s.value" % k] = ("gauge", ".value", [v])
                groups["gauge"] += 1
            pm, psli, ppd = "stats.meter.", "stats.SLI.", "stats.pdistinct."
        else:
            for k, v in self.c.items():
                out[self.pre + k + ".count"] = ("counter", ".count", [Fraction(int(v))])
                groups["counter"] += 1
            for k, m in self.t.items():
                vs = m["values"]
                n = len(vs)
                vals = {".min": [min(vs) if vs else 0], ".max": [max(vs) if vs else 0],
                        ".mean": [sum(vs) / n if vs else 0], ".count": [m["count"]]}
                if n > 1:
                    mean = sum(vs) / n
                    vals[".stddev"] = [math.sqrt(sum((x - mean) ** 2 for x in vs) / (n - 1))]
                else:
                    vals[".stddev"] = [0]
                vals[".99percentile"] = [percentile(vs, 0.99) if vs else 0]
                vals[".999percentile"] = [percentile(vs, 0.999) if vs else 0]
                vals[".rate"] = [n / (ts - t) if ts > t else 0 for t in m["prev"]]
                for s, v in vals.items():
                    out[self.pre + k + s] = ("timer", s, [rinterp.pyround(rinterp.frac(x), 6) for x in v])
                groups["timer"] += 1
                m["values"], m["prev"] = [], [ts]
            for k, v in self.g.items():
                out[self.pre + k + ".value"] = ("gauge", ".value", [v])
                groups["gauge"] += 1
            pm = psli = ppd = self.pre
        for k, m in self.m.items():
            groups["meter"] += 1
            prev = m["prev"]
            if all(ts <= t for t in prev):
                m["prev"] = [ts]
                continue
            m["count"] += m["value"]
            opt = any(ts <= t for t in prev)
            self.ambiguous |= opt
            out[pm + k + ".count"] = ("meter", ".count", [rinterp.pyround(m["count"], 6)], opt)
            out[pm + k + ".rate"] = ("meter", ".rate", [rinterp.pyround(m["value"] / (ts - t), 6) for t in prev if ts > t], opt)
            m["value"], m["prev"] = Fraction(0), [ts]
        for k, (n, err) in self.sli.items():
            out[psli + k + ".count"] = ("plugin", "sli.count", [n])
            out[psli + k + ".error"] = ("plugin", "sli.error", [err])
            groups["plugin"] += 1
            self.sli[k] = [0, 0]
        for k in self.pd:
            for s in ("count", "count_1min", "count_1hour", "count_1day"):
                out[ppd + k + "." + s] = ("plugin", "pd." + s, None)
            groups["plugin"] += 1
        rec, self.received = self.received, {}
        # one group per metric, whether or not it has something to report
        tot = sum(groups.values())
        out[self.internal + "numStats"] = ("internal", "numStats", [tot])
        for k, n in groups.items():
            out[self.internal + "flush.%s.count" % k] = ("internal", "flush.count", [n])
            out[self.internal + "flush.%s.duration" % k] = ("internal", "flush.duration", None)
        for t, x in rec.items():
            out[self.internal + "receive.%s.count" % t] = ("internal", "receive.count", [len(x)])
            out[self.internal + "receive.%s.duration" % t] = ("internal", "receive.duration", None)
        return out, groups, rec


def replay(H, r, p, visit, upto=None):
    """Call visit(step, reference data) for each flush of a history at a point."""
    ref = Reference(H.kind, H.prefix, p)
    st = stages(r)
    for n, s in enumerate(H.steps):
        evs = st.get(n)
        if evs is None:
            return
        times = [p.ev(e.args[0]) for e in all_events(evs) if e.kind == "time" and e.args]
        if s != "flush":
            ref.sample(s[0], p.ev(H.key[s[1]]), p.ev(H.val(n)), p.ev(H.third(n)) if len(s) > 2 else None, times)
            continue
        F = Flushed(evs, p)
        ts = None
        first = next((e for e in all_events(evs) if e.kind == "time"), None)
        if first is not None and first.args:
            ts = Fraction(math.floor(p.ev(first.args[0])))
        elif F.items:
            ts = F.items[0][2]
        if not isinstance(ts, Fraction):
            return
        exp, groups, rec = ref.flush(p.ev(INTERVAL), p.ev(PERCENT), ts)
        visit(n, F, exp, groups, rec, ts, ref)
        if ref.ambiguous:
            return


def histories(kind, thorough=False):
    """Step lists: one and two samples of every pair of types, on one name or two, before one or two flushes."""
    types = ["c", "ms", "g", "m", "sli", "pd"]
    out = []
    for t in types:
        out.append([(t, 0), "flush", "flush"])
        out.append([(t, 0), (t, 0), "flush"])
        out.append([(t, 0), (t, 1), "flush"])
        out.append([(t, 0), "flush", (t, 0), "flush"])
    out.append([("c", 0, "rate"), ("c", 0), "flush"])
    out.append([("sli", 0, "size"), "flush"])
    for i, a in enumerate(types):
        for b in types[i + 1:]:
            if {a, b} == {"sli", "pd"}:
                out.append([(a, 0), (b, 1), "flush"])
                continue
            out.append([(a, 0), (b, 0), "flush"])
    if thorough:
        for t in types:
            out.append([(t, 0), (t, 0), (t, 0), "flush"])
            out.append([(t, 0), (t, 1), "flush", (t, 0), "flush"])
    return out


def differences(F, exp, ref, ts):
    """[(category, path, text, where)] between a flush at a point and what it should report."""
    out = []
    for e, why in F.bad:
        out.append(("triple", "?", why, e.where))
    got = {}
    unknown = False
    for path, v, t, i, e in F.items:
        if isinstance(path, tuple):
            if path[0] == "!":
                out.append(("undefined", "?", "the path %s has no value" % path[1][:200], e.where))
            unknown = True
            continue
        if not isinstance(path, str):
            out.append(("triple", str(path), "the path is %s" % (path,), e.where))
            continue
        if isinstance(t, tuple):
            unknown = True
        elif t != ts:
            out.append(("timestamp", path, "timestamp %s of %s is not the whole second the flush started at, %s" % (t, path, ts), e.where))
        if path in got and not (path in exp and len(exp[path]) > 4):
            out.append(("duplicate", path, "%s is reported twice" % path, e.where))
        got[path] = (v, e)
    for path, x in exp.items():
        if path not in got:
            if not (len(x) > 3 and x[3]) and not F.opaque and not unknown:
                out.append(("missing", "%s%s" % (x[0], x[1]), "%s is not reported" % path, None))
            continue
        v, e = got[path]
        if x[2] is None:
            continue
        if isinstance(v, tuple):
            if v[0] == "!":
                out.append(("undefined", "%s%s" % (x[0], x[1]), "%s has no value (division by zero or a missing item)" % path, e.where))
            else:
                out.append(("?", path, v[1][:200], e.where))
        elif not any(num_eq(v, y) for y in x[2]):
            out.append(("value", "%s%s" % (x[0], x[1]), "%s is reported as %s, not %s" % (
                path, rinterp.fmtnum(v) if isinstance(v, Fraction) else v,
                " or ".join(sorted({rinterp.fmtnum(Fraction(y)) for y in x[2]})[:3])), e.where))
    for path in got:
        if path not in exp:
            out.append(("extra", "path", "%s is reported but belongs to nothing received" % path, got[path][1].where))
    if unknown:
        out.append(("?", "path", "a path or timestamp without an interpretation", None))
    return out


def judge(ctx, rep, kind, steps, prefix, wanted, rule, I=None, want=None, n=None):
    """Explore a history and compare what it reports with the reference.

    wanted: categories that count for the property; want(path entry) restricts the metrics.
    """
    H = History(ctx, kind, steps, prefix, I)
    subj = "%s:%s" % (kind, ",".join("flush" if s == "flush" else s[0] for s in steps))
    for r in H.paths:
        if r.kind == "undecided":
            rep.undecided(rule, subj, r.value)
    done = 0
    seen = set()
    for hit in H.points(n or (60 if ctx.thorough else 14), ctx.seed):
        if hit is None:
            continue
        r, p = hit
        if r.kind == "raise":
            rep.violation(rule, "%s:raise:%s" % (kind, excname(r.value.exc)), "%s: %s" % (H.tell(p), r.value),
                          getattr(r.value, "where", None), path_text(r))
            continue

        def visit(step, F, exp, groups, rec, ts, ref):
            if want is not None:
                exp2 = {k: x for k, x in exp.items() if want(x)}
            else:
                exp2 = exp
            for cat, what, text, where in differences(F, exp, ref, ts):
                if cat == "?":
                    rep.undecided(rule, subj, "%s: %s" % (what, text))
                elif cat in wanted and (want is None or any(text.startswith(k + " ") for k in exp2) or cat in ("triple", "timestamp", "extra", "duplicate")):
                    rep.violation(rule, "%s:%s:%s" % (kind, cat, what), "after %s (step %d): %s" % (H.tell(p), step, text),
                                  where, path_text(r))
        replay(H, r, p, visit)
        done += 1
        seen.add(id(r))
    if done:
        rep.ok(rule, "%s on %d paths" % (subj, len(seen)), n=len(seen))
    else:
        rep.undecided(rule, subj, "no point on any path")
    return H


# ------------------------------------------------------------------ somebody else's plugin
def custom_flush(ctx, kind):
    """What a plugin metric is given by a flush: [(path result, point, interval, value shown, its timestamp, another timestamp, where)]."""
    I = ctx.interp()
    make = make_processor(ctx, kind, plugins=custom_plugin)
    typ = ("attr", sym("cfg:customplugin", "obj"), "metric_type")

    def scenario(I):
        o = make(I)
        I.assume(I.eq_atom(typ, const(CUSTOM_TYPE)), True)
        I.call(I.getattr(o, "process_message", None), [sym("message0", "str"), const(CUSTOM_TYPE), sym("name0", "str"),
               I.new_list([sym("value0", "str"), const(CUSTOM_TYPE)])], {}, None)
        I.event("mark", "step1")
        flush_op(I, o)
        return o
    paths = ctx.explore(I, scenario)
    out = []
    for iv in (1000, 10000, 60000, 500, 1500, 250, 7, 1999):
        env = {INTERVAL: Fraction(iv), PERCENT: Fraction(90), sym("cfg:message_prefix", "str"): "pre.fix", sym("name0", "str"): "N", typ: CUSTOM_TYPE,
               sym("message0", "str"): "MSG", sym("value0", "str"): "1", "#t0": Fraction(2000001, 2), "#dt": Fraction(1)}
        for r in paths:
            if r.kind == "undecided":
                continue
            p = Point(random.Random(1), env)
            p.approx = True
            p.given = env
            ok = True
            for at, v in r.facts.log:
                fv = rinterp.free(at)
                if fv and all(configured(x) and x not in env for x in fv):
                    continue
                try:
                    if bool(p.ev(at)) != v:
                        ok = False
                        break
                except (NoValue, Unknown):
                    ok = False
                    break
            if ok and not p.unknown_ops:
                out.append((iv, r, p))
                break
    return out


def custom_seen(r, p):
    """(value, timestamp, other timestamp, where) of the datapoint a plugin metric yielded, or None."""
    F = Flushed(stages(r).get(1, []), p)
    got = [x for x in F.items if x[0] == "custom.seen"]
    rest = [x for x in F.items if x[0] != "custom.seen"]
    return F, got, rest


def judge_custom(ctx, rep, kind, rule):
    """A plugin metric's datapoints are yielded as it gives them; it is given the interval in seconds and the flush's timestamp."""
    n = 0
    for iv, r, p in custom_flush(ctx, kind):
        F, got, rest = custom_seen(r, p)
        if r.kind == "raise" or F.opaque:
            rep.undecided(rule, kind, "flush of somebody else's plugin: %s" % (r.value if r.kind == "raise" else "loop"))
            continue
        if len(got) != 1:
            rep.violation(rule, "%s:plugin:once" % kind, "a flush (interval %d ms) yields the datapoint of a plugin's metric %d times" % (iv, len(got)), None, path_text(r))
            continue
        _, v, ts, _, e = got[0]
        if isinstance(v, tuple) or isinstance(ts, tuple):
            rep.undecided(rule, kind, "value %s" % (v,))
            continue
        n += 1
        if not num_eq(v, Fraction(iv, 1000)):
            rep.violation(rule, "%s:plugin:interval" % kind, "with a flush interval of %d ms, a plugin's metric is given the interval %s s" % (iv, rinterp.fmtnum(v)), e.where, path_text(r))
        elif any(x[2] != ts for x in rest if not isinstance(x[2], tuple)):
            rep.violation(rule, "%s:plugin:timestamp" % kind, "a plugin's metric is given the timestamp %s, others %s" % (ts, rest[0][2]), e.where, path_text(r))
        else:
            rep.ok(rule, "%s plugin, interval %d" % (kind, iv))
    if not n:
        rep.undecided(rule, kind, "no decided path for a flush with somebody else's plugin")
