"""C27: the plugin objects of twisted/plugins are found in the module namespaces; their declarations are read from the
source, and their contract (configure, build_metric, process, flush) is interpreted.  What a metric reports after
another one of the plugin was used is compared with what it reports alone."""
from checks.service import *
from program import iter_nodes

ASSUMPTIONS = ["the options of a plugin's own section are well formed", "the clock is the same in both runs"]
TECHNIQUE = "static analysis: syntactic query for the declared interfaces of the plugin objects, and abstract interpretation of the contract's calls, alone and interleaved with another metric's"
HAZ = {"parse", "none", "key", "zerodiv", "index", "unpack", "domain"}
KINDS = {"timers", "gauge", "meter", "counts", "count", "timer", "counter", "event"}


def declared(I, q):
    """Names of the interfaces a class declares, itself or by its bases."""
    out = set()

    def names(n, mod):
        for x in iter_nodes(n):
            if x._ == "Name":
                v = I.modules.get(mod, {}).get(x.id)
                out.add(v[1].rsplit(".", 1)[-1] if v is not None and v[0] in ("x", "cls") else x.id)
            elif x._ == "Attribute":
                out.add(x.attr)

    for b in I.mro(q):
        c = b if not isinstance(b, tuple) else I.classes.get(b[1]) if b[0] == "cls" else None
        node = getattr(c, "node", None)
        if node is None:
            continue
        for d in list(getattr(node, "decorator_list", None) or []):
            names(d, c.module)
        for s in node.body:
            for x in iter_nodes(s) if s._ in ("Expr", "If") else ():
                if x._ == "Call":
                    names(x, c.module)
        tree = I.program.modules[c.module]
        for s in tree.body:
            for x in iter_nodes(s) if s._ in ("Expr", "Assign") else ():
                if x._ == "Call" and any(y._ == "Name" and y.id == node.name for a in x.args for y in iter_nodes(a)):
                    names(x, c.module)
    return out


def plugins(I):
    """[(module, name, object)] of the objects that build metrics."""
    out = []
    for m in sorted(I.program.modules):
        if not m.startswith("twisted.plugins."):
            continue
        I.module(m)
        for n in sorted(I.modules[m]):
            v = I.modules[m][n]
            if v[0] == "obj" and v[1] in I.base.heap and I.base.heap.peek(v[1]).kind == "inst" and I.class_lookup(I.base.heap.peek(v[1]).cls, "build_metric") is not None:
                out.append((m, n, v))
    return out


def constant(I, v, name):
    x = I.getattr(v, name, None)
    return x[1] if is_const(x) and isinstance(x[1], str) else None


def explored(ctx, rep, rule, what, I, sc):
    """The paths, with raises and undecided ones reported."""
    rs = ctx.explore(I, sc)
    out = []
    for r in rs:
        if r.kind == "undecided":
            rep.undecided(rule, what, r.value)
        elif r.kind == "raise":
            rep.violation(rule, "raise", "%s: raises %s" % (what, r.value), getattr(r.value, "where", None), path_text(r))
        else:
            out.append(r)
    return out if len(out) == len(rs) and rs else None


def declarations(ctx, rep, I, found):
    seen = {}
    for m, n, v in found:
        who = "%s.%s" % (m, n)
        where = m.replace(".", "/") + ".py"
        missing = {"IPlugin", "IMetricFactory"} - declared(I, I.base.heap.peek(v[1]).cls)
        rep.decide("declared", who, not missing, "%s does not declare %s: it is not found as a plugin" % (who, ", ".join(sorted(missing))), where)
        for attr_ in ("name", "metric_type"):
            got = {}

            def sc(I, v=v, attr_=attr_):
                got["x"] = constant(I, v, attr_)
            if explored(ctx, rep, "declared", "%s of %s" % (attr_, who), I, sc) is None:
                continue
            x = got.get("x")
            if x is None:
                rep.undecided("declared", who, "the %s is not a constant string" % attr_)
                continue
            taken = attr_ == "metric_type" and x in BUILTIN_TYPES or attr_ == "name" and x in KINDS
            rep.decide("declared", "%s %s" % (who, attr_), bool(x) and not taken, "%s has the %s %r, which is %s" % (who, attr_, x, "a built-in one" if taken else "empty"), where)
            bad = set(x) & set(":|@\n\r \t/" if attr_ == "metric_type" else ":|@\n\r \t/.")
            rep.decide("declared", "%s %s text" % (who, attr_), not bad, "%s has the %s %r, which no message or path can hold" % (who, attr_, x), where)
            if (attr_, x) in seen:
                rep.violation("declared", "same", "%s and %s have the same %s, %r" % (seen[attr_, x], who, attr_, x), where)
            else:
                seen[attr_, x] = who
                rep.ok("declared", "%s of %s is its own" % (attr_, who))
    types = {x for a, x in seen if a == "metric_type"}
    for t in ("sli", "pd"):
        rep.decide("declared", "type " + t, t in types, "no bundled plugin takes messages of type %s" % t, "twisted/plugins")


OPTIONS = {"no options": lambda I: [],
           "the service's options": lambda I: [(const(n), opt(n)) for n in INTS + STRS] + [(const(n), v) for n, v in DEFAULTS.items() if not isinstance(v, list)],
           "another plugin's section": lambda I: [(const("plugin_other"), I.new_dict([(const("rules"), sym("cfg:rules", "str")), (const("x"), sym("cfg:x", "str"))]))],
           "an empty section": lambda I: [(const("plugin_" + t), I.new_dict([])) for t in ("sli", "pd", "distinct", "pdistinct", "SLI")],
           "an empty section as items": lambda I: [(const("plugin_" + t), I.new_list([])) for t in ("sli", "pd", "distinct", "pdistinct", "SLI")],
           "a section with a key of its own": lambda I: [(const("plugin_" + t), I.new_dict([(const("other"), sym("cfg:x", "str"))])) for t in ("sli", "pd", "distinct", "pdistinct")],
           "rules": lambda I: [(const("plugin_sli"), I.new_dict([(const("rules"), const("\na.b* => red IF above 5\na.b* => green IF below 3 1\n* => yellow IF between 1 2"))]))]}


def fresh(I, v):
    """The plugin as the module makes it: an object of its class."""
    return I.call(("cls", I.base.heap.peek(v[1]).cls), [], {}, None)


def build(I, f, prefix, name, style):
    b = I.getattr(f, "build_metric", None)
    clock = ("x", "cfg.clock")
    if style == "processor":
        return I.call(b, [prefix], {"name": name, "wall_time_func": clock}, None)
    if style == "positional":
        return I.call(b, [prefix, name, clock], {}, None)
    return I.call(b, [], {"prefix": prefix, "name": name, "wall_time_func": clock}, None)


def setup(I):
    I.cfg.ext["cfg.clock"] = lambda I, a, k, n: const(1300000000.0)
    I.cfg.ext["time.time"] = I.cfg.ext["cfg.clock"]
    rng = random.Random(5)

    def draw(I, a, k, node):
        return const(rng.getrandbits(32))
    rng.seed(5)
    for n in ("random.randint", "random.randrange", "random.getrandbits"):
        I.cfg.ext[n] = draw


def new(ctx):
    return ctx.interp(hazards=set(HAZ), unroll=300, unroll_true=True)


def frozen(I, d):
    return I.snap(d) if d[0] == "obj" else d


def contract(ctx, rep, m, n, told):
    I = new(ctx)
    v = [x for a, b, x in plugins(I) if (a, b) == (m, n)][0]
    who = "%s.%s with %s" % (m, n, told)
    where = m.replace(".", "/") + ".py"

    def sc(I, style="processor", fields=None):
        setup(I)
        f = fresh(I, v)
        pairs = OPTIONS[told](I)
        d = I.new_dict(pairs)
        was = frozen(I, d)
        I.call(I.getattr(f, "configure", None), [d], {}, None)
        I.event("mark", "options", [was, frozen(I, d)])
        metric = build(I, f, const("a"), const("b"), style)
        t = constant(I, v, "metric_type")
        for x in fields or ():
            I.call(I.getattr(metric, "process", None), [I.new_list([const(y) if y is not None else const(t) for y in x])], {}, None)
        for k in range(2):
            I.event("mark", "flushed", [I.snap(I.call(I.getattr(metric, "flush", None), [sym("interval", "num"), sym("timestamp", "int")], {}, None))])
    samples = [("5", None), ("7.5", None, "2"), ("0", None)]
    for style in ("processor", "positional", "keywords"):
        for fields in ([], samples[:1], samples):
            what = "%s, built with %s, %d samples" % (who, {"processor": "the processor's call", "positional": "positional arguments", "keywords": "keywords"}[style], len(fields))
            rs = explored(ctx, rep, "contract", what, I, lambda I: sc(I, style, fields))
            if rs is None:
                continue
            good = True
            for r in rs:
                for e in r.events:
                    if e.kind != "mark":
                        continue
                    if e.what == "options" and e.args[0] != e.args[1]:
                        rep.violation("contract", "options", "%s: configure changes the options it is given" % what, where, path_text(r))
                        good = False
                    if e.what == "flushed":
                        bad = shape(r, e.args[0])
                        if bad is None:
                            rep.undecided("contract", what, "flushed %s" % show(e.args[0])[:80])
                            good = False
                        elif bad:
                            rep.violation("contract", "flush", "%s: a flush gives %s" % (what, bad), where, path_text(r))
                            good = False
            if good:
                rep.ok("contract", what)


def shape(r, t):
    """'' if a flush result is a sequence of triples with string, number and the timestamp; what is wrong; None if unknown."""
    xs = listed(r.state.heap, t)
    if xs is None:
        if t == NONE or is_const(t):
            return show(t)
        return None
    for x in xs:
        y = listed(r.state.heap, x)
        if y is None:
            return None
        if len(y) != 3:
            return "an item of %d parts" % len(y)
        if ty(y[0]) != "str":
            return "the path %s" % show(y[0])[:60]
        if ty(y[1]) not in ("int", "float", "num", "bool"):
            return "the value %s of %s" % (show(y[1])[:60], show(y[0])[:60]) if ty(y[1]) != "unk" else None
        if y[2] != sym("timestamp", "int"):
            return "the timestamp %s of %s" % (show(y[2])[:60], show(y[0])[:60])
    return ""


A = [("6", None), ("1.5", None, "3"), ("6", None)]
B = [("2", None), ("7", None, "2")]
ORDERS = {"the other one built first": "aAbBf", "the other one built later": "baABf", "the other one flushed before": "abABgf", "the other one flushed between": "abBAgf",
          "the other one used in between": "abAbBAgf", "two flushes": "abABfgAf", "built after the other one was used": "aAgbBf", "built after the other one was used, without samples": "aAAbf",
          "rebuilt": "aAgaAbBf"}


def apart(ctx, rep, m, n, told, same):
    """Metric b after the events of a metric a, and without them."""
    I = new(ctx)
    v = [x for p, q, x in plugins(I) if (p, q) == (m, n)][0]
    names = ("a.b", "a.b2") if not same else ("a.b", "a.b")
    where = m.replace(".", "/") + ".py"

    def sc(I, order):
        setup(I)
        f = fresh(I, v)
        I.call(I.getattr(f, "configure", None), [I.new_dict(OPTIONS[told](I))], {}, None)
        t = constant(I, v, "metric_type")
        ms = {}

        def make(x):
            ms[x] = build(I, f, const("" if x == "a" and not same else "p"), const(names[x == "b"]), "processor")
        for op in order:
            if op in "ab":
                make(op)
            elif op in "AB":
                for x in A if op == "A" else B:
                    I.call(I.getattr(ms[op.lower()], "process", None), [I.new_list([const(y) if y is not None else const(t) for y in x])], {}, None)
            else:
                x = I.snap(I.call(I.getattr(ms["b" if op == "f" else "a"], "flush", None), [const(10), const(1000)], {}, None))
                if op == "f":
                    I.event("mark", "flushed", [x])

    def results(r):
        out = []
        for e in r.events:
            if e.kind == "mark" and e.what == "flushed":
                xs = listed(r.state.heap, e.args[0])
                if xs is None or any(listed(r.state.heap, x) is None for x in xs):
                    raise Unknown(show(e.args[0])[:80])
                out.append(sorted(tuple(show(y) for y in listed(r.state.heap, x)) for x in xs))
        return out
    for told2, order in ORDERS.items():
        what = "%s.%s with %s: a metric, %s%s" % (m, n, told, told2, ", of the same name" if same else "")
        alone = "".join(x for x in order if x in "bBf")
        r1 = explored(ctx, rep, "apart", what, I, lambda I: sc(I, order))
        r2 = explored(ctx, rep, "apart", what, I, lambda I: sc(I, alone))
        if r1 is None or r2 is None:
            continue
        if len(r1) > 1 or len(r2) > 1:
            rep.undecided("apart", what, "more than one path")
            continue
        try:
            x, y = results(r1[0]), results(r2[0])
        except Unknown as e:
            rep.undecided("apart", what, "flushed %s" % e)
            continue
        if x != y and not closed(x + y):
            rep.undecided("apart", what, "flushed %s" % (x,))
            continue
        for p, q in zip(x, y):
            if p != q:
                diff = [(i, j) for i, j in zip(p, q) if i != j] or [(p, q)]
                rep.violation("apart", "state", "%s: reports %s instead of %s" % ((what,) + diff[0]), where, path_text(r1[0]))
                break
        else:
            rep.ok("apart", what)


def closed(rows):
    """All figures are constants."""
    import ast
    for row in rows:
        for it in row:
            for x in it:
                try:
                    ast.literal_eval(x)
                except (ValueError, SyntaxError):
                    return False
    return True


def service(ctx, rep):
    """The service configures every plugin with its options, once, before a metric is built."""
    for n in (0, 1, 3):
        for compliance in (1, 0):
            for dump in (0, 1):
                I = stubbed(ctx)
                pls = [sym("cfg:plugin%d" % i, "obj") for i in range(n)]
                I.cfg.opaque_attrs["metric_type"] = lambda I, base, node: const("zz" + base[1][-1]) if base in pls else None
                I.cfg.opaque_attrs["name"] = lambda I, base, node: const("kind" + base[1][-1]) if base in pls else None

                def configure(I, base, a, k, nd):
                    if base not in pls:
                        return None
                    I.event("mark", "configured", [base, ("tuple",) + tuple(a)])
                    return NONE
                I.cfg.opaque_methods["configure"] = configure
                what = "createService with %d plugins, compliance %d, dump %d" % (n, compliance, dump)
                rs = explored(ctx, rep, "service", what, I, create(ctx, {"statsd-compliance": const(compliance), "dump-mode": const(dump)}, plugins=lambda I: list(pls)))
                if rs is None:
                    continue
                for r in rs:
                    evs = [e for e in flat_events(r.events) if e.kind == "mark" and e.what == "configured"]
                    bad = None
                    for p in pls:
                        mine = [e for e in evs if e.args[0] == p]
                        if len(mine) != 1:
                            bad = "plugin %s is configured %d times" % (p[1], len(mine))
                    if bad:
                        rep.violation("service", "configure", "%s: %s" % (what, bad), "txstatsd/service.py", path_text(r))
                        break
                else:
                    rep.ok("service", what)


def job(ctx, rep, j):
    if j[0] == "declared":
        I = new(ctx)
        declarations(ctx, rep, I, plugins(I))
    elif j[0] == "contract":
        contract(ctx, rep, *j[1:])
    elif j[0] == "apart":
        apart(ctx, rep, *j[1:])
    elif j[0] == "service":
        service(ctx, rep)


def run(ctx, rep):
    I = new(ctx)
    found = plugins(I)
    rep.anchor(found, "no object with build_metric is found in twisted/plugins")
    jobs = [("declared",), ("service",)]
    for m, n, v in found:
        jobs += [("contract", m, n, told) for told in OPTIONS]
        jobs += [("apart", m, n, told, same) for told in ("no options", "rules") for same in (False, True)]
    ctx.pmap(lambda j, rp: job(ctx, rp, j), jobs)
