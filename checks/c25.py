"""C25: histories of SLI samples and flushes are interpreted with symbolic values, sizes and bounds, for reporters
built with conditions, by the plugin from rules, and by a processor; the flushed counts are compared, on the path an
assignment takes, with those of the definition, at values on and around each bound."""
import fnmatch
from checks.common import *

ASSUMPTIONS = ["values, sizes and bounds are finite numbers", "a label is given to one condition among the rules that match a path"]
TECHNIQUE = "static analysis: abstract interpretation of symbolic sample histories over generated rule sets; flushed terms compared with the definition on each path, at assignments on and around the bounds"
SLI = "txstatsd.metrics.slimetric"
PLUGIN = "twisted.plugins.sli_plugin"
HAZ = {"parse", "none", "key", "zerodiv", "index", "unpack", "domain"}
CLASSES = {"above": "AboveCondition", "below": "BelowCondition", "between": "BetweenCondition"}
TIME = sym("timestamp", "int")


def V(n):
    return sym("sample%d" % n, "str")


def S(n):
    return sym("size%d" % n, "str")


def NV(n):
    return sym("number%d" % n, "num")


def NS(n):
    return sym("numbersize%d" % n, "num")


def bound(label, i):
    return sym("bound:%s:%d" % (label, i), "num")


class Scenario(object):
    """metrics: list of (prefix, name); steps: (op, metric) with op among
    v (a message's value), vs (value and size), u/us (a local update), flush."""

    def __init__(self, how, rules, metrics, steps, told):
        self.how, self.rules, self.metrics, self.steps, self.told = how, rules, metrics, steps, told

    def path(self, m):
        prefix, name = self.metrics[m]
        if not prefix:
            return name
        return prefix + name if prefix.endswith(".") else prefix + "." + name

    def conditions(self, m):
        """label: (kind, params) with params as terms."""
        out = {}
        for pattern, label, kind, params in self.rules:
            if self.how == "direct":
                out[label] = (kind, [bound(label, i) for i in range(params)])
            elif fnmatch.fnmatchcase(self.path(m), pattern):
                out[label] = (kind, [("const", Fraction(x)) for x in params])
        return out

    def text(self):
        return "\n".join("%s => %s IF %s %s" % (p, l, k, " ".join(x)) for p, l, k, x in self.rules)


def make(ctx, I, sc):
    if sc.how == "direct":
        conds = []
        for pattern, label, kind, params in sc.rules:
            c = I.call(ctx.need_class(I, SLI, CLASSES[kind]), [bound(label, i) for i in range(params)], {}, None)
            conds.append((const(label), c))
        cls = ctx.need_class(I, SLI, "SLIMetricReporter")
        return [I.call(cls, [const(sc.path(m)), I.new_dict(list(conds))], {}, None) for m in range(len(sc.metrics))]
    f = I.call(ctx.need_class(I, PLUGIN, "SLIMetricFactory"), [], {}, None)
    section = [(const("rules"), const(sc.text()))]
    if sc.how == "pairs":
        section = I.new_list([("tuple",) + p for p in section])
    else:
        section = I.new_dict(section)
    I.call(I.getattr(f, "configure", None), [I.new_dict([(const("plugin_sli"), section)])], {}, None)
    if sc.how == "processor":
        prefix = sc.metrics[0][0]
        p = I.call(ctx.need_class(I, CONF, "ConfigurableMessageProcessor"), [], {"message_prefix": const(prefix), "plugins": I.new_list([f])}, None)
        return p
    return [I.call(I.getattr(f, "build_metric", None), [const(p), const(n)] + ([("x", "cfg.clock")] if m % 2 else []), {}, None) for m, (p, n) in enumerate(sc.metrics)]


def scenario(ctx, sc):
    def run(I):
        I.cfg.ext["cfg.clock"] = lambda I, a, k, n: sym("clock", "num")
        os = make(ctx, I, sc)
        n = 0
        for k, (op, m) in enumerate(sc.steps):
            if op == "flush":
                if sc.how == "processor":
                    # the flush of a processor reports all its metrics
                    got = []
                    g = I.call(I.getattr(os, "flush", None), [const(10000), const(90)], {}, None)
                    I.event("mark", "flush%d" % k)
                    I.iterate(g, lambda v: I.event("yield", "yield", [v]), None)
                    I.event("mark", "flushed%d" % k)
                    continue
                v = I.call(I.getattr(os[m], "flush", None), [const(10), TIME], {}, None)
                I.event("mark", "got%d" % k, [I.snap(v)])
                continue
            if op in ("v", "vs"):
                f = [V(n), const("sli")] + ([S(n)] if op == "vs" else [])
                I.assume(("isnum", S(n)), True) if op == "vs" else None
                if sc.how == "processor":
                    I.call(I.getattr(os, "process_message", None), [const("m"), const("sli"), const(sc.metrics[m][1]), I.new_list(f)], {}, None)
                else:
                    I.call(I.getattr(os[m], "process", None), [I.new_list(f)], {}, None)
            elif op == "e":
                I.call(I.getattr(os[m], "update", None), [const("error")], {}, None)
            else:
                I.call(I.getattr(os[m], "update", None), [NV(n)] + ([NS(n)] if op == "us" else []), {}, None)
            n += 1
    return run


def holds(kind, ps, v, size):
    if kind == "between":
        return ps[0] < v < ps[1]
    at = ps[0] + (ps[1] if len(ps) > 1 else 0) * size
    return v > at if kind == "above" else v < at


def expected(sc, env):
    """{step: {path: count}} for the flushes."""
    out = {}
    state = [dict(count=0, error=0) for _ in sc.metrics]
    n = 0
    for k, (op, m) in enumerate(sc.steps):
        if op == "flush":
            out[k] = {}
            for i in ([m] if sc.how != "processor" else range(len(sc.metrics))):
                st = state[i]
                if sc.how == "processor" and st.get("unseen", True):
                    continue
                for label in sc.conditions(i):
                    out[k][sc.path(i) + ".count_" + label] = st.get("c:" + label, 0)
                out[k][sc.path(i) + ".count"] = st["count"]
                out[k][sc.path(i) + ".error"] = st["error"]
                state[i] = dict(count=0, error=0, unseen=False)
            continue
        st = state[m]
        st["unseen"] = False
        st["count"] += 1
        v = "error" if op == "e" else env[V(n)] if op in ("v", "vs") else env[NV(n)]
        size = env[S(n)] if op == "vs" else env[NS(n)] if op == "us" else 1
        if v == "error":
            st["error"] += 1
        else:
            for label, (kind, ps) in sc.conditions(m).items():
                if holds(kind, [x[1] if x[0] == "const" else env[x] for x in ps], Fraction(v), Fraction(size)):
                    st["c:" + label] = st.get("c:" + label, 0) + 1
        n += 1
    return out


def text(x):
    return str(int(x)) if x == int(x) else repr(float(x))


def assignments(sc, n, seed):
    rng = random.Random(seed)
    for turn in range(n):
        env = {TIME: Fraction(rng.randint(1, 2 * 10 ** 9)), sym("clock", "num"): Fraction(1000)}
        if sc.how == "direct":
            for pattern, label, kind, params in sc.rules:
                ps = [Fraction(rng.randint(-8, 8), rng.choice([1, 2, 4])) for _ in range(params)]
                if kind == "between" and turn % 4:
                    ps = sorted(ps)
                for i, x in enumerate(ps):
                    env[bound(label, i)] = x
        k = 0
        for op, m in sc.steps:
            if op == "flush":
                continue
            size = Fraction(rng.choice([0, 1, 2, 3, Fraction(1, 2), 10, -1]))
            at = Fraction(rng.randint(-5, 20))
            conds = sorted(sc.conditions(m).items())
            if conds:
                kind, ps = rng.choice(conds)[1]
                ps = [x[1] if x[0] == "const" else env[x] for x in ps]
                at = rng.choice(ps[:2]) if kind == "between" else ps[0] + (ps[1] if len(ps) > 1 else 0) * (size if op in ("vs", "us") else 1)
            v = at + rng.choice([0, 0, Fraction(1, 2), -Fraction(1, 2), 3, -3])
            if Fraction(float(v)) != v:
                v = at
            if op in ("v", "vs"):
                env[V(k)] = "error" if rng.random() < .2 else text(v)
                env[S(k)] = text(size)
            else:
                env[NV(k)], env[NS(k)] = v, size
            k += 1
        yield env


def tell(sc, env):
    out, n = [], 0
    for op, m in sc.steps:
        who = " of %s" % sc.path(m) if len(sc.metrics) > 1 else ""
        if op == "flush":
            out.append("flush" + who)
            continue
        x = "error" if op == "e" else env[V(n)] if op in ("v", "vs") else text(env[NV(n)])
        if op in ("vs", "us"):
            x += " with size %s" % (env[S(n)] if op == "vs" else text(env[NS(n)]))
        out.append(x + who)
        n += 1
    return "; ".join(out)


def rules_told(sc, env):
    if sc.how != "direct":
        return sc.text().replace("\n", " / ")
    return ", ".join("%s %s %s" % (l, k, " ".join(text(env[bound(l, i)]) for i in range(n))) for _, l, k, n in sc.rules)


def items_of(e):
    t = e.args[0]
    if t[0] not in ("list", "tuple"):
        raise Unknown("flushed %s" % show(t)[:80])
    return list(t[1:])


def flushed(sc, r):
    """{step: item terms}."""
    out, on = {}, None
    for e in flat_events(r.events):
        if e.kind == "mark":
            if e.what.startswith("got"):
                out[int(e.what[3:])] = items_of(e)
            elif e.what.startswith("flushed"):
                on = None
            elif e.what.startswith("flush"):
                on = int(e.what[5:])
                out[on] = []
        elif e.kind == "yield" and on is not None:
            out[on].append(e.args[0])
    return out


def one(ctx, rep, sc):
    I = ctx.interp(hazards=set(HAZ), unroll=40)
    rs = ctx.explore(I, scenario(ctx, sc))
    for r in rs:
        if r.kind == "undecided":
            rep.undecided("counts", sc.told, r.value)
    hits = misses = 0
    for env in assignments(sc, 400 if ctx.thorough else 120, ctx.seed):
        hit = pick(rs, env, ctx.seed)
        if hit is None:
            misses += 1
            continue
        r, p = hit
        about = "rules %s; %s" % (rules_told(sc, env), tell(sc, env))
        if r.kind == "raise":
            rep.violation("counts", "raise", "%s: raises %s, for %s" % (sc.told, r.value, about), getattr(r.value, "where", None), path_text(r))
            return
        want = expected(sc, env)
        try:
            got = flushed(sc, r)
            for k in sorted(want):
                bad = differs(sc, p, want[k], got.get(k, []), env)
                if bad:
                    rep.violation("counts", bad[0], "%s: flush at step %d: %s, for %s" % (sc.told, k + 1, bad[1], about), "txstatsd/metrics/slimetric.py" if sc.how == "direct" else "twisted/plugins/sli_plugin.py", path_text(r))
                    return
        except NoValue as e:
            rep.undecided("counts", sc.told, "a value: %s" % e)
            return
        except Unknown as e:
            rep.undecided("counts", sc.told, "a value: %s" % e)
            return
        hits += 1
    rep.facts["assignments_on_paths"] = rep.facts.get("assignments_on_paths", 0) + hits
    rep.facts["assignments_on_no_path"] = rep.facts.get("assignments_on_no_path", 0) + misses
    if not hits:
        rep.undecided("counts", sc.told, "no assignment lies on a path")
    elif not any(r.kind == "undecided" for r in rs):
        rep.ok("counts", sc.told)


def differs(sc, p, want, items, env):
    seen = {}
    for it in items:
        if it[0] != "tuple" or len(it) != 4:
            if sc.how == "processor":
                continue
            raise Unknown("item %s" % show(it)[:60])
        path = it[1]
        if sc.how == "processor":
            try:
                path = value(p, path)
            except (NoValue, Unknown):
                continue
            if not any(path.startswith(sc.path(m) + ".") for m in range(len(sc.metrics))):
                continue
        else:
            path = value(p, path)
        v = value(p, it[2])
        if path in seen:
            return "duplicate", "%s is reported twice" % path
        seen[path] = v
        if path not in want:
            return "extra", "%s is reported" % path
        if isinstance(v, (str, tuple)) or v is None or Fraction(v) != want[path]:
            return "count", "%s is %s instead of %d" % (path, v if isinstance(v, (str, tuple)) or v is None else rinterp.fmtnum(v), want[path])
        if sc.how != "processor" and value(p, it[3]) != env[TIME]:
            return "timestamp", "%s has another timestamp" % path
    for path in want:
        if path not in seen:
            return "missing", "%s is not reported" % path
    return None


def scenarios(thorough):
    M1 = [("", "test.m")]
    kinds = [("above", 1), ("above", 2), ("below", 1), ("below", 2), ("between", 2)]
    hist = {"one sample": ["v"], "a sample with a size": ["vs"], "a local sample": ["u"], "a local sample with a size": ["us"], "a local error": ["e"],
            "two samples": ["v", "vs"], "a flush between": ["vs", "flush", "v"], "two flushes": ["v", "flush", "flush"],
            "errors and samples": ["e", "us", "e"], "no sample": []}
    if thorough:
        hist.update({"three samples": ["v", "vs", "v"], "three samples and flushes": ["v", "flush", "vs", "flush", "vs"]})
    for kind, n in kinds:
        for told, h in hist.items():
            yield Scenario("direct", [(None, "one", kind, n)], M1, [(x, 0) for x in h] + [("flush", 0)], "one condition (%s, %d parameters): %s" % (kind, n, told))
    for a, na in kinds:
        for b, nb in kinds:
            for told in ("one sample", "a sample with a size", "a flush between", "errors and samples"):
                if told == "a flush between" and (a, na) > (b, nb) and not thorough:
                    continue
                yield Scenario("direct", [(None, "one", a, na), (None, "two", b, nb)], M1, [(x, 0) for x in hist[told]] + [("flush", 0)],
                               "two conditions (%s, %d; %s, %d): %s" % (a, na, b, nb, told))
    for told, h in hist.items():
        yield Scenario("direct", [], M1, [(x, 0) for x in h] + [("flush", 0)], "no condition: %s" % told)
    two = [("pre.fix", "a"), ("pre.fix", "b")]
    shared = [[("vs", 0), ("flush", 0), ("flush", 1)], [("vs", 0), ("v", 1), ("flush", 0), ("flush", 1)], [("v", 0), ("flush", 1), ("flush", 0)],
              [("v", 0), ("v", 1), ("flush", 0), ("v", 0), ("flush", 1)]]
    for h in shared:
        yield Scenario("direct", [(None, "one", "above", 2)], two, h, "two metrics with the same conditions: %s" % " ".join("%s%d" % x for x in h))
        for how in ("rules", "pairs"):
            yield Scenario(how, [("pre.fix.*", "one", "above", ["5", "1"])], two, h, "two metrics of a rule (%s): %s" % (how, " ".join("%s%d" % x for x in h)))
    apart = [("pre.fix.a", "one", "above", ["5", "1"]), ("pre.fix.b", "two", "below", ["7"]), ("*a", "three", "between", ["0", "9.5"]), ("pre*", "four", "above", ["2"])]
    for names_ in (two, two[::-1], [("pre.fix", "a"), ("other", "b")]):
        for h in shared[1:]:
            for how in ("rules", "pairs"):
                yield Scenario(how, apart, names_, h, "metrics %s of several rules (%s): %s" % ([x + "." + y for x, y in names_], how, " ".join("%s%d" % x for x in h)))
    sets = {"one rule": [("test.m", "red", "above", ["5"])],
            "a slope": [("test.m", "red", "above", ["5", "1.5"])],
            "a negative slope": [("test.m", "red", "below", ["100", "-2"])],
            "below": [("test.m", "red", "below", ["0.5"])],
            "between": [("test.m", "green", "between", ["0.25", "3"])],
            "negative bounds": [("test.m", "green", "between", ["-3", "-0.5"]), ("test.m", "red", "above", ["-4", "-1"])],
            "several labels": [("test.m", "red", "above", ["5"]), ("test.m", "yellow", "above", ["3"]), ("test.m", "green", "between", ["0", "3"])],
            "a star": [("test*", "red", "above", ["5"])],
            "a leading star": [("*.m", "red", "above", ["5"])],
            "a question mark": [("tes?.?", "red", "above", ["5"])],
            "every metric": [("*", "red", "above", ["5"])],
            "several patterns": [("test.*", "red", "above", ["5"]), ("*.m", "yellow", "below", ["2", "1"]), ("other.*", "green", "above", ["1"])],
            "several patterns, the other order": [("other.*", "green", "above", ["1"]), ("*.m", "yellow", "below", ["2", "1"]), ("test.*", "red", "above", ["5"])],
            "overlapping patterns": [("*", "red", "above", ["5"]), ("test.m", "yellow", "above", ["6"]), ("t*", "green", "above", ["7"])],
            "another metric's pattern": [("test.mm", "red", "above", ["5"]), ("test", "yellow", "above", ["5"]), ("m", "green", "above", ["5"])],
            "patterns apart, one label each": [("test.*", "red", "above", ["5"]), ("other.*", "red", "below", ["1"])],
            "one pattern between others": [("test.m", "red", "above", ["5"]), ("x.*", "black", "above", ["0"]), ("test.m", "yellow", "above", ["3"])],
            "the case of letters": [("TEST.M", "red", "above", ["5"]), ("test.m", "Red", "above", ["6"])],
            "names with digits, dashes and underscores": [("test_o-k.m1", "red_1", "above", ["5"])]}
    names = [("", "test.m"), ("test", "m"), ("test.", "m"), ("pre.fix", "test.m"), ("", "other.m"), ("", "test_o-k.m1"), ("", "TEST.M"), ("", "test.mm")]
    for told, rules in sets.items():
        for prefix, name in names:
            path = Scenario("rules", rules, [(prefix, name)], [], "").path(0)
            for how in ("rules", "pairs") if (prefix, name) == names[0] else ("rules",):
                for h in (["vs", "flush", "v"], ["v"]) if (prefix, name) == names[0] else (["vs"],):
                    yield Scenario(how, rules, [(prefix, name)], [(x, 0) for x in h] + [("flush", 0)], "rules (%s, %s) for the metric %r under the prefix %r: %s" % (told, how, name, prefix, " ".join(h)))
    for rules in (sets["several patterns"], sets["overlapping patterns"], [("pre.fix.*", "red", "above", ["5", "1"]), ("*.b", "yellow", "below", ["3"])]):
        for h in ([("v", 0), ("flush", 0)], [("vs", 0), ("flush", 0), ("flush", 0)], [("v", 0), ("v", 1), ("flush", 0)], [("vs", 0), ("flush", 0), ("v", 1), ("flush", 0)]):
            names_ = [("pre.fix", "a"), ("pre.fix", "b")]
            yield Scenario("processor", rules, names_, h, "samples through a processor, rules %s: %s" % ([r[0] for r in rules], " ".join("%s%d" % x for x in h)))


def run(ctx, rep):
    js = list(scenarios(ctx.thorough))
    ctx.pmap(lambda xs, rp: [one(ctx, rp, x) for x in xs], [js[i::32] for i in range(32)])
