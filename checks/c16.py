"""C16: the options of the service and of two applications of OptionsGlue are parsed, by interpretation over a model of
usage.Options, getopt and ConfigParser, from command lines and configuration files in which every declared option
takes every combination of sources (none, file, long, short, abbreviated, joined, file and each of these), and each value is
compared with the one that the precedence demands.  Every declared option must reach the service."""
import getopt
from checks.service import *
from checks.c18 import reach

ASSUMPTIONS = ["usage.Options, getopt and ConfigParser work as their model in stubs/ describes", "file values are as RawConfigParser gives them: text without surrounding blanks",
               "that routing and report have their effect is judged by C14 and C17"]
TECHNIQUE = "static analysis: abstract interpretation of the option parsing over enumerated combinations of sources of every declared option (constant and symbolic values); reachability of option values from the service"
SV = "txstatsd.service"
U = "twisted.python.usage."
MODEL = {U + "Options": "Options", U + "CoerceParameter": "CoerceParameter", U + "portCoerce": "portCoerce", "ConfigParser.RawConfigParser": "RawConfigParser",
         "ConfigParser.ConfigParser": "InterpolatingConfigParser", "ConfigParser.SafeConfigParser": "InterpolatingConfigParser"}
STATES = ["none", "file", "long", "short", "file+long", "file+short", "file+joined", "file+equals", "file+abbreviated"]


def model(ctx, files):
    """An interpreter that knows the option parser; files: path -> [(section, [(name, term)])]."""
    I = ctx.interp(stubs=dict(STUBS, **MODEL), load=("stubs.options_model",))
    if I.lookup_global("stubs.twisted_model", "Options") is None:
        raise AnalysisBroken("the model of usage.Options is gone")

    def class_lists(I, q, name):
        out = []
        for c in reversed([c for c in I.mro(q)]):
            q = getattr(c, "q", None)
            v = I.classes[q].dict.get(name) if q in I.classes else None
            if v is not None:
                out += listed(I.st.heap, v)
        return out

    def parameters(I, a, k, n):
        rows = []
        for p in class_lists(I, I.obj(a[0]).cls, "optParameters"):
            row = (listed(I.st.heap, p) + [NONE] * 5)[:5]
            rows.append(("tuple", row[0], row[1], row[2], ("x", "builtin.str") if row[4] == NONE else row[4]))
        return I.new_list(rows)

    def flags(I, a, k, n):
        return I.new_list([("tuple",) + tuple((listed(I.st.heap, p) + [NONE])[:2]) for p in class_lists(I, I.obj(a[0]).cls, "optFlags")])

    def handlers(I, a, k, n):
        found = {}
        for c in I.mro(I.obj(a[0]).cls):
            q = getattr(c, "q", None)
            for name, v in (I.classes[q].dict.items() if q in I.classes else ()):
                if name.startswith("opt_"):
                    found.setdefault(name[4:].replace("_", "-"), v)
        rows = []
        for name, v in found.items():
            longest = max([x for x, w in found.items() if w == v], key=len)
            rows.append(("tuple", const(name), const(longest), I.getattr(a[0], "opt_" + name.replace("-", "_"), n)))
        return I.new_list(rows)

    def config(I, a, k, n):
        if not is_const(a[0]):
            raise Undecided("which file is read")
        secs = files.get(a[0][1])
        if secs is None:
            return NONE
        return I.new_list([("tuple", const(s), I.new_list([("tuple", const(x), v) for x, v in pairs])) for s, pairs in secs])

    def parse(I, a, k, n):
        args = listed(I.st.heap, a[0])
        longs = listed(I.st.heap, a[2]) if len(a) > 2 else []
        if args is None or longs is None or not is_const(a[1]) or not all(is_const(x) for x in longs):
            raise Undecided("getopt")
        held, plain = {}, []
        for x in args:
            if not is_const(x):
                parts = list(x[1:]) if x[0] == "cat" else [x]
                for j, y in enumerate(parts):
                    if not is_const(y):
                        held["\0%d\0" % len(held)] = y
                        parts[j] = const(list(held)[-1])
                x = cat(parts)
            plain.append(x[1])

        def back(s):
            parts = [s]
            for h, t in held.items():
                parts = [z for y in parts for z in ([y] if not isinstance(y, str) else [w for i, v in enumerate(y.split(h)) for w in (([t] if i else []) + [v])])]
            return cat([const(y) if isinstance(y, str) else y for y in parts])
        try:
            opts, rest = getopt.getopt(plain, a[1][1], [x[1] for x in longs])
        except getopt.GetoptError as e:
            raise PyRaise("getopt.error", n, str(e), where=I.where(n))
        return ("tuple", I.new_list([("tuple", const(o), back(v)) for o, v in opts]), I.new_list([back(x) for x in rest]))

    def interpolated(I, a, k, n):
        if is_const(a[0]) and "%" in a[0][1]:
            raise PyRaise("ConfigParser.InterpolationSyntaxError", n, "'%' in a value that is interpolated", where=I.where(n))
        return a[0]
    for name, f in dict(parameters=parameters, flags=flags, handlers=handlers, config=config, interpolated=interpolated).items():
        I.cfg.ext["verif_native." + name] = f
    I.cfg.ext["getopt.getopt"] = parse
    I.cfg.ext["os.path.exists"] = I.cfg.ext["os.path.isfile"] = lambda I, a, k, n: TRUE if is_const(a[0]) and a[0][1] in files else FALSE
    return I


def declared(ctx, I, module, name):
    """[(option, short, kind, default, repeated)] of an option class."""
    out = []

    def sc(I):
        c = ctx.need_class(I, module, name)
        o = I.call(c, [], {}, None)
        many = {x[1][1] for x in listed(I.st.heap, I.cfg.ext["verif_native.handlers"](I, [o], {}, None))}
        for row in listed(I.st.heap, I.cfg.ext["verif_native.parameters"](I, [o], {}, None)):
            opt, short, default, kind = row[1:]
            out.append((opt[1], short[1], {"builtin.int": "int", "builtin.float": "float", "builtin.str": "str"}.get(kind[1], "other"), I.snap(default), opt[1] in many))
        seen = {x[0] for x in out}
        out.extend((x, None, "str", NONE, True) for x in sorted(many) if x not in seen and len(x) > 1)
        I.event("init", "init", [("tuple",) + tuple(I.snap(I.getitem(o, const(x[0]), None)) if x[4] and x[0] != "config" else NONE for x in out)])
    rs = ctx.explore(I, sc)
    if len(rs) != 1 or rs[0].kind != "ok":
        return None, rs
    return [x for x in out if x[0] != "config"], rs


WORDS = {"cmd": ["", "0", "typed %(x)s = y", "typed"], "file": ["file value", "a=b:c #d", "50%", "0"]}
NUMBERS = {"cmd": ["0", "7001", "19"], "file": ["42", "0", "60001"]}


def text(kind, where, i, k, name):
    if kind in ("int", "float"):
        v = NUMBERS[where][(i + k) % 3]
        if kind == "float" and v != "0":
            v += ".5"
        return const(v)
    if k == 3:
        return sym("%s:%s" % (where, name), "str")
    return const(WORDS[where][(i + k) % 4])


def as_kind(kind, t):
    if kind == "int":
        return const(int(t[1]))
    if kind == "float":
        return const(float(t[1]))
    return t


def arguments(opts, states, k, files_first):
    """(argument terms, statsd section, expected by option) for a state of each option."""
    args, pairs, want = [], [], {}
    names = [x[0] for x in opts] + ["config", "help", "version"]
    for i, (name, short, kind, default, many) in enumerate(opts):
        st = states[i]
        n_cmd = 2 if many else 1
        k_ = kind if not many or "port" not in name else "int"
        cmd = [text(k_, "cmd", i + j, k, "%s%d" % (name, j)) for j in range(n_cmd)]
        fil = text(k_, "file", i, k, name)
        here = []
        for j, v in enumerate(cmd):
            how = st.split("+")[-1]
            if how in ("short", "joined") and short is None:
                how = "long"
            if how == "joined" and v == const(""):
                how = "short"
            if how == "abbreviated" and many:    # known to getopt twice, so not abbreviated
                how = "long"
            if how == "long" or how == "short" and j and many:
                here += [const("--" + name), v]
            elif how == "short":
                here += [const("-" + short), v]
            elif how == "joined":
                here += [cat([const("-" + short), v])]
            elif how == "equals":
                here += [cat([const("--%s=" % name), v])]
            elif how == "abbreviated":
                short_of = next(name[:l] for l in range(1, len(name) + 1) if name[:l] == name or sum(x.startswith(name[:l]) for x in names) == 1)
                here += [const("--" + short_of), v]
        args += here
        in_file = st.startswith("file")
        if in_file:
            pairs.append((name, fil))
        vals = [as_kind(k_, v) for v in cmd] if here else [as_kind(k_, fil)] if in_file else None
        if many:
            want[name] = ("list",) + tuple(vals or [])
        else:
            want[name] = default if vals is None else vals[-1]
    conf = [const("--config"), const("the.conf")] if k % 2 else [const("-c"), const("the.conf")]
    args = conf + args if files_first else args + conf
    return args, pairs, want


def run(ctx, rep):
    classes = [(SV, "StatsDOptions"), ("stubs.options_model", "Plain"), ("stubs.options_model", "Derived")]
    jobs = [("combination", c, turn, k) for c in classes for turn in range(len(STATES)) for k in (range(4) if ctx.thorough or turn % 3 == 0 else [turn % 4, 3])]
    jobs += [("sections", k) for k in range(len(SECTIONS))]
    jobs += [("twice", c) for c in classes]
    jobs += [("absent",)]
    jobs += [("effect",)]
    ctx.pmap(lambda j, rp: dict(combination=combination, sections=sections, twice=twice, absent=absent, effect=effect)[j[0]](ctx, rp, *j[1:]), jobs)


def compare(rep, r, told, want, subject):
    """Compare what was parsed (the last "parsed" event) with what is wanted; False: violated."""
    if r.kind == "undecided":
        rep.undecided("options", told, r.value)
        return True
    if r.kind == "raise":
        rep.violation("raises", subject, "%s: raises %s" % (told, r.value), getattr(r.value, "where", None), path_text(r))
        return False
    e = next(e for e in reversed(r.events) if e.kind == "parsed")
    got = {t[1][1]: t[2] for t in e.args[0][1:]}
    for name, v in want.items():
        g = got[name]
        if g == v or (is_const(g) and is_const(v) and g[1] == v[1] and type(g[1]) == type(v[1])):
            continue
        if g[0] in ("c", "sym", "list", "dict", "tuple") and all(x[0] in ("c", "sym", "tuple") for x in (g[1:] if g[0] in ("list", "tuple") else ())):
            rep.violation("value", name, "%s: %s is %s, not %s" % (told, name, show(g), show(v)), e.where or "txstatsd/service.py", path_text(r))
            return False
        rep.undecided("options", told, "%s is %s" % (name, show(g)[:100]))
        return True
    rep.ok("options", told)
    return True


def parse(ctx, I, c, args, names, before=None):
    def sc(I):
        cls = ctx.need_class(I, *c)
        if before is not None:
            o = I.call(cls, [], {}, None)
            I.call(I.getattr(o, "parseOptions", None), [I.new_list(before)], {}, None)
        o = I.call(cls, [], {}, None)
        I.call(I.getattr(o, "parseOptions", None), [I.new_list(args)], {}, None)
        I.event("parsed", "parsed", [("tuple",) + tuple(("tuple", const(x), I.snap(I.call(I.getattr(o, "get", None), [const(x)], {}, None))) for x in names)])
    return ctx.explore(I, sc)


def options_of(ctx, rep, c):
    opts, rs = declared(ctx, model(ctx, {}), *c)
    if opts is None:
        bad = [r for r in rs if r.kind == "raise"]
        if bad:
            rep.violation("raises", c[1], "making %s raises %s" % (c[1], bad[0].value), getattr(bad[0].value, "where", None), path_text(bad[0]))
        else:
            rep.undecided("options", c[1], [str(r.value) for r in rs][:2])
    elif any(x[2] == "other" for x in opts):
        rep.undecided("options", c[1], "an option of a type of its own: %s" % [x[0] for x in opts if x[2] == "other"])
        opts = [x for x in opts if x[2] != "other"]
    return opts


def combination(ctx, rep, c, turn, k):
    opts = options_of(ctx, rep, c)
    if opts is None:
        return
    states = [STATES[(i + turn) % len(STATES)] for i in range(len(opts))]
    args, pairs, want = arguments(opts, states, k, turn % 2)
    I = model(ctx, {"the.conf": [("statsd", pairs)]})
    told = "%s with %s" % (c[1], ", ".join("%s from %s" % (x[0], s) for x, s in zip(opts, states)))
    for r in parse(ctx, I, c, args, list(want)):
        compare(rep, r, told, want, c[1])


def K(x):
    return const(x)


# file sections, arguments, expected triples of host, port and name, expected plugin sections
FULL = lambda i, *less: [(n, K(v)) for n, v in (("carbon-cache-host", "h%d" % i), ("carbon-cache-port", str(2000 + i)), ("carbon-cache-name", "n%d" % i)) if n not in less]
SLI = [("a", K("b => above 1")), ("rules", K("%red\n => x")), ("C d", K(""))]
SECTIONS = [
    ([("statsd", []), ("carbon-cache", FULL(1))], [], [("h1", 2001, "n1")], []),
    ([("carbon-cache-b", FULL(1)), ("statsd", []), ("carbon-cache", FULL(2)), ("carbon-cache_a", FULL(3))], [], [("h1", 2001, "n1"), ("h2", 2002, "n2"), ("h3", 2003, "n3")], []),
    ([("statsd", FULL(1)), ("carbon-cache", FULL(2)), ("carbon-cache-z", FULL(3))], [], [("h1", 2001, "n1"), ("h2", 2002, "n2"), ("h3", 2003, "n3")], []),
    ([("statsd", FULL(1)), ("carbon-cache", FULL(2))], ["-h", "x", "-p", "9", "-n", "y"], [("x", 9, "y")], []),
    ([("statsd", FULL(1)), ("carbon-cache", FULL(2))], ["--carbon-cache-host", "x", "-p9", "--carbon-cache-name=y", "--carbon-cache-host=v", "-p", "8", "-n", "w"], [("x", 9, "y"), ("v", 8, "w")], []),
    ([("statsd", []), ("carbon-cache", FULL(1)), ("plugin_sli", SLI), ("plugin_other", [("x", K("1"))]), ("other", [("prefix", K("no"))])], [], [("h1", 2001, "n1")], [("plugin_sli", SLI), ("plugin_other", [("x", K("1"))])]),
    ([("plugin_sli", SLI), ("statsd", [("prefix", K("yes"))])], ["-x", "cmd"], [], [("plugin_sli", SLI)]),
    ([("statsd", [("listen-port", K("1"))]), ("carbon-cache", FULL(1) + [("unknown", K("x"))]), ("carbon-cache-2", FULL(2))], ["--listen-port", "3"], [("h1", 2001, "n1"), ("h2", 2002, "n2")], []),
]


def sections(ctx, rep, k):
    secs, args, triples, plugins = SECTIONS[k]
    told = "file with [%s]%s" % ("], [".join(s for s, _ in secs), ", arguments %s" % " ".join(args) if args else "")
    I = model(ctx, {"the.conf": secs})
    names = ["carbon-cache-host", "carbon-cache-port", "carbon-cache-name"] + [n for n, _ in plugins] + ["prefix", "listen-port", "unknown", "other", "plugin_other", "plugin_sli"]
    for r in parse(ctx, I, (SV, "StatsDOptions"), [K("--config"), K("the.conf")] + [K(x) for x in args], names):
        if r.kind != "ok":
            compare(rep, r, told, {}, "sections")
            continue
        e = next(e for e in reversed(r.events) if e.kind == "parsed")
        got = {t[1][1]: t[2] for t in e.args[0][1:]}
        cols = [got[n] for n in names[:3]]
        if any(x[0] != "list" or not all(is_const(y) for y in x[1:]) for x in cols):
            rep.undecided("sections", told, "carbon caches: %s" % ", ".join(show(x)[:60] for x in cols))
            continue
        cols = [[y[1] for y in x[1:]] for x in cols]
        if len({len(x) for x in cols}) != 1 or sorted(zip(*cols)) != sorted(triples):
            rep.violation("sections", "carbon-cache", "%s: the carbon caches are hosts %s, ports %s, names %s instead of %s" % (told, cols[0], cols[1], cols[2], triples), "txstatsd/service.py", path_text(r))
            continue
        want = {n: ("list",) + tuple(("tuple", K(x), v) for x, v in pairs) for n, pairs in plugins}
        for n, pairs in plugins:
            d = ("dict",) + tuple((K(x), v) for x, v in pairs)
            if got[n] == d:
                want[n] = d
        for n in ("plugin_other", "plugin_sli", "other", "unknown"):
            want.setdefault(n, NONE)
        conf = dict(dict(secs).get("statsd", []))
        want["prefix"] = K("cmd") if "-x" in args else conf.get("prefix", NONE)
        compare(rep, r, told, want, "sections")


def twice(ctx, rep, c):
    """What one parser was given is not remembered by the next."""
    opts = options_of(ctx, rep, c)
    if opts is None:
        return
    first, _, _ = arguments(opts, ["long" if i % 2 else "short" for i in range(len(opts))], 0, True)
    args, pairs, want = arguments(opts, ["file" if i % 3 else "none" for i in range(len(opts))], 1, True)
    I = model(ctx, {"the.conf": [("statsd", pairs)]})
    for r in parse(ctx, I, c, args, list(want), first):
        compare(rep, r, "%s, made after another that was given every option" % c[1], want, c[1])


def absent(ctx, rep):
    """Without a file, and with flags of sys.argv."""
    for c in ((SV, "StatsDOptions"), ("stubs.options_model", "Derived")):
        opts = options_of(ctx, rep, c)
        if opts is None:
            continue
        for how in ("long", "none"):
            args, _, want = arguments(opts, [how] * len(opts), 2, True)
            I = model(ctx, {})
            for r in parse(ctx, I, c, args[2:], list(want)):
                compare(rep, r, "%s without a file, options from %s" % (c[1], how), want, c[1])


def effect(ctx, rep):
    """createService on a value of each declared option: it is part of the service, of what is done, or decides."""
    opts = options_of(ctx, rep, (SV, "StatsDOptions"))
    if opts is None:
        return
    for name, short, kind, default, many in opts:
        if name in ("routing", "report"):
            continue
        v = sym("opt:" + name, "int" if kind == "int" else "str")
        over = {name: v}
        col = {"carbon-cache-host": "hosts", "carbon-cache-port": "ports", "carbon-cache-name": "names"}
        if many and name in col:
            over = {"hosts": [const("h")], "ports": [const(2)], "names": [const("n")]}
            over[col[name]] = [v]
        found, bad = False, None
        for more in ({}, {"statsd-compliance": const(0)}, {"dump-mode": const(1)}):
            if found or name in more:
                continue
            I = stubbed(ctx)
            for r in ctx.explore(I, create(ctx, dict(more, **over))):
                if r.kind == "undecided":
                    bad = r
                elif e_mentions(r, v):
                    found = True
        if found:
            rep.ok("effect", name)
        elif bad is not None:
            rep.undecided("effect", name, bad.value)
        else:
            rep.violation("effect", name, "the option %s is declared, but its value goes nowhere: no object, call or decision of createService has it" % name, "txstatsd/service.py")


def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def e_mentions(r, v):
    """The value is in something other than the options themselves."""
    for a in r.facts.log:
        if any(x == v for x in walk(a)):
            return True
    for e in all_events(after_mark(r.events, "create")):
        if e.kind in ("call", "write", "print") and any(x == v for a in list(e.args) + list((e.kw or {}).values()) for x in walk(a)):
            return True
    return False
