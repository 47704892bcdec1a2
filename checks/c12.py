"""C12: sequences of one to three calls of each kind of the client API, with symbolic names, values and
sample rates, are interpreted for several namespaces; at assignments of these the messages written to
the connection must be those of the contract, one for one, and in the same order."""
from checks.common import *

ASSUMPTIONS = ["names are ASCII", "the sample rate of a metric is the one given when its name is first used for its kind"]
TECHNIQUE = "static analysis: abstract interpretation of client call sequences with symbolic arguments; written terms evaluated against the message grammar"

CLASSES = {"plain": ("txstatsd.metrics.metrics", "Metrics"), "extended": ("txstatsd.metrics.extendedmetrics", "ExtendedMetrics")}
NS = sym("namespace", "str")


def V(i):
    return sym("value%d" % i, "float")


def W(i):
    return sym("size%d" % i, "float")


def R(i):
    return sym("rate%d" % i, "float")


def NAME(i):
    return sym("name%d" % i, "str")


def ITEM(i):
    return sym("item%d" % i, "str")


# kind: (method, arguments after the name, tag, sampled kind)
OPS = {
    "gauge": lambda i: ("gauge", [V(i)], {}),
    "gauge rated": lambda i: ("gauge", [V(i), R(i)], {}),
    "meter": lambda i: ("meter", [V(i)], {}),
    "meter one": lambda i: ("meter", [], {}),
    "meter rated": lambda i: ("meter", [V(i), R(i)], {}),
    "increment": lambda i: ("increment", [V(i)], {}),
    "increment one": lambda i: ("increment", [], {}),
    "increment rated": lambda i: ("increment", [V(i), R(i)], {}),
    "decrement": lambda i: ("decrement", [V(i)], {}),
    "decrement one": lambda i: ("decrement", [], {}),
    "decrement rated": lambda i: ("decrement", [], {"value": V(i), "sample_rate": R(i)}),
    "timing": lambda i: ("timing", [V(i)], {}),
    "timing rated": lambda i: ("timing", [V(i), R(i)], {}),
    "timing clock": lambda i: ("timing", [], {}),
    "reset": lambda i: ("reset_timing", None, {}),
    "sli": lambda i: ("sli", [V(i)], {}),
    "sli sized": lambda i: ("sli", [V(i), W(i)], {}),
    "sli error": lambda i: ("sli_error", [], {}),
    "distinct": lambda i: ("distinct", [ITEM(i)], {}),
    "report": lambda i: ("report", [V(i), const("zz")], {}),
    "report extra": lambda i: ("report", [V(i), const("sli"), W(i)], {}),
    "clear": lambda i: ("clear", [], {}),
}
KIND = {"gauge": "g", "meter": "m", "increment": "c", "decrement": "c", "timing": "ms", "sli": "sli", "sli_error": "sli", "distinct": "pd"}


def scenario(ctx, which, ns, seq):
    """seq: [(operation, name index)]"""
    def sc(I):
        c = ctx.need_class(I, *CLASSES[which])
        args = [sym("cfg:connection", "obj")] + ([] if ns == "default" else [const(None)] if ns == "none" else [NS])
        o = I.call(c, args, {}, None)
        for k, (op, n) in enumerate(seq):
            m, a, kw = OPS[op](k)
            I.event("mark", "m%d" % k)
            I.call(I.getattr(o, m, None), ([] if a is None else [NAME(n)] + list(a)), dict(kw), None)
        I.event("mark", "end")
    return sc


def expected(which, ns, seq, env, clock):
    """Per call: (required, message parts) or None."""
    rates, totals, out, last = {}, {}, [], Fraction(0)
    prefix = env.get(NS, "") if ns == "given" else ""
    for k, (op, n) in enumerate(seq):
        m, a, kw = OPS[op](k)
        now = clock.get(k)
        if m == "reset_timing":
            last = now
            out.append(None)
            continue
        name = (prefix + "." if prefix else "") + env[NAME(n)]
        if m == "clear":
            if which == "extended" and (n, "c") in rates and "c" in {t for (x, t) in rates if x == n}:
                totals[n] = Fraction(0)
                r = rates[(n, "c")]
                out.append((name, [Fraction(0)], "c", r, []))
            else:
                out.append(None)
            continue
        tag = KIND.get(m) or a[1][1]
        rate = kw.get("sample_rate", a[1] if len(a) > 1 and m in ("gauge", "meter", "increment", "decrement", "timing") else None)
        rate = env[rate] if rate is not None else Fraction(1)
        if m in ("sli", "sli_error", "report", "distinct"):
            rate = Fraction(1)
        rate = rates.setdefault((n, tag), rate)
        v = kw.get("value", a[0] if a else None)
        extra = []
        if m == "sli_error":
            v = "error"
        elif m == "distinct":
            v = env[v]
        elif v is None:
            if m == "timing":
                v = (now - last) * 1000
                last = now
            else:
                v = Fraction(1)
        else:
            v = env[v]
            if m == "timing":
                v = v * 1000
        if m == "decrement":
            v = -v
        if tag == "c" and which == "extended":
            totals[n] = totals.get(n, Fraction(0)) + v
            v = totals[n]
        if m == "sli" and len(a) > 1 or m == "report" and len(a) > 2:
            extra = [env[a[-1]]]
        out.append((name, [v], tag, rate, extra))
    return out


def same(text, v):
    if isinstance(v, str):
        return text == v
    try:
        f = Fraction(text)
    except ValueError:
        return False
    return abs(f - v) <= abs(v) * Fraction(1, 10 ** 9)


def matches(text, want):
    """The message against its parts: None, or what is wrong."""
    name, vals, tag, rate, extra = want
    if not text.startswith(name + ":"):
        return "the name is not %r" % name
    f = text[len(name) + 1:].split("|")
    exp = 2 + len(extra) + (1 if rate < 1 else 0)
    if len(f) != exp:
        return "it has %d fields instead of %d" % (len(f), exp)
    if not same(f[0], vals[0]):
        return "the value is %s instead of %s" % (f[0], rinterp.fmtnum(vals[0]))
    if f[1] != tag:
        return "the type is %s instead of %s" % (f[1], tag)
    for x, y in zip(f[2:], extra):
        if not same(x, y):
            return "the field after the type is %s instead of %s" % (x, rinterp.fmtnum(y))
    if rate < 1 and not (f[-1].startswith("@") and same(f[-1][1:], rate)):
        return "the rate is given as %s instead of @%s" % (f[-1], rinterp.fmtnum(rate))
    return None


F = Fraction
VALUES = [F(1), F(0), F(-3), F(7, 2), F(-1, 1000), F(123456), F(10 ** 7), F(1, 10 ** 5), F("15.125")]
RATES = [F(1), F(1, 2), F(15, 16), F(2), F(99, 100), F(0), F(1, 3)]
NAMES = ["gorets", "a.b.c", "x"]
SPACES = ["ns", "a.b", "", "statsd"]


def sequences(thorough):
    singles = [o for o in OPS]
    seqs = [[(o, 0)] for o in singles]
    live = [o for o in singles if o != "reset"]
    base = ["gauge", "meter", "increment", "decrement", "timing", "sli", "sli sized", "sli error", "distinct", "report", "clear"]
    pairs = [(a, b) for a in base for b in base]
    pairs += [("reset", "timing clock"), ("timing clock", "timing clock"), ("timing", "timing clock"), ("report extra", "sli"), ("sli", "report extra")]
    for a in ("gauge", "meter", "increment", "decrement", "timing"):
        pairs += [(a + " rated", a), (a, a + " rated"), (a + " rated", a + " rated"), (a + " rated", "clear")]
    pairs += [("increment rated", "decrement"), ("decrement rated", "increment"), ("gauge rated", "timing"), ("increment rated", "timing"),
              ("timing rated", "increment"), ("increment rated", "gauge"), ("gauge rated", "sli")]
    seqs += [[(a, 0), (b, 0)] for a, b in pairs]
    seqs += [[(a, 0), (a, 1)] for a in live]
    seqs += [[("increment", 0), ("increment", 1), ("decrement", 0)], [("decrement", 0), ("increment", 0), ("increment", 0)],
             [("increment", 0), ("clear", 0), ("increment", 0)], [("increment", 0), ("clear", 1), ("decrement", 0)],
             [("increment", 0), ("gauge", 0), ("increment", 0)], [("gauge", 0), ("timing", 0), ("gauge", 0)],
             [("reset", 0), ("timing", 0), ("timing clock", 0)], [("timing clock", 0), ("timing clock", 1), ("timing clock", 0)],
             [("sli", 0), ("sli error", 0), ("sli sized", 0)], [("decrement", 0), ("decrement", 0), ("decrement", 0)]]
    if thorough:
        seqs += [[(a, 0), (b, 0), (c, 0)] for a in base for b in base for c in base]
    return seqs


def run(ctx, rep):
    jobs = []
    for which in CLASSES:
        for ns in ("default", "none", "given"):
            for s in sequences(ctx.thorough):
                if ns != "given" and len(s) > 1:
                    continue
                jobs.append((which, ns, s))
    sampled(ctx, rep)
    size = 6
    ctx.pmap(lambda js, rp: [one(ctx, rp, *j) for j in js], [jobs[i:i + size] for i in range(0, len(jobs), size)])


def sampled(ctx, rep):
    """Of evenly spread draws, the part that sends is the sample rate."""
    for which in CLASSES:
        for op in ("gauge rated", "meter rated", "increment rated", "decrement rated", "timing rated"):
            I = ctx.interp()
            rs = ctx.explore(I, scenario(ctx, which, "default", [(op, 0)]))
            draws = {x for r in rs for a, _ in r.facts.log for x in walk(a) if x and x[0] == "rand"}
            subj = "%s:%s" % (which, op.split()[0])
            if len(draws) != 1:
                rep.undecided("sampled", subj, "%d draws" % len(draws))
                continue
            d = draws.pop()
            for rate in (F(1, 10), F(1, 4), F(1, 2), F(9, 10)):
                sent = total = 0
                for i in range(40):
                    hit = pick(rs, {NAME(0): "x", V(0): F(3), R(0): rate, d: F(2 * i + 1, 80)}, ctx.seed)
                    if hit is None or hit[0].kind != "ok":
                        continue
                    total += 1
                    sent += 1 if calls(hit[0].events, "cfg:connection.write") else 0
                if total < 40:
                    rep.undecided("sampled", subj, "no path for a draw")
                elif abs(F(sent, total) - rate) > F(1, 20):
                    rep.violation("sampled", subj, "with the rate %s the %s client sends %d of 40 evenly spread draws of %s" % (rinterp.fmtnum(rate), which, sent, op.split()[0]), None, path_text(hit[0]))
                else:
                    rep.ok("sampled", "%s at %s" % (subj, rate))


def one(ctx, rep, which, ns, seq):
    I = ctx.interp()
    rs = ctx.explore(I, scenario(ctx, which, ns, seq))
    told = "%s client: %s" % (which, ", ".join("%s %s" % (o, NAMES[n]) for o, n in seq))
    subj = "%s:%s" % (which, OPS[seq[-1][0]](0)[0])
    for r in rs:
        if r.kind == "undecided":
            rep.undecided("message", told, r.value)
    rng = random.Random(ctx.seed * 31 + len(seq))
    runs = 40 if ctx.thorough else 14
    seen = done = 0
    for t in range(runs):
        env = {NAME(n): NAMES[n] for n in range(3)}
        if ns == "given":
            env[NS] = SPACES[t % len(SPACES)]
        for k in range(len(seq)):
            env[V(k)] = VALUES[(t + 4 * k) % len(VALUES)]
            env[W(k)] = VALUES[(t + 5 * k + 5) % len(VALUES)]
            env[R(k)] = RATES[(t + k) % len(RATES)] if t % 3 else F(1)
            env[ITEM(k)] = rng.choice(["a", "user-7", "1.5", "", "x y"])
        hit = pick(rs, env, ctx.seed + t)
        if hit is None:
            rep.undecided("message", told, "no path for an assignment")
            continue
        r, p = hit
        seen += 1
        at = {show(x): (rinterp.fmtnum(v) if isinstance(v, Fraction) else v) for x, v in env.items() if any(q == x for f in [r] for q in [x])}
        if r.kind == "raise":
            rep.violation("raises", subj, "%s raises: %s" % (told, r.value), getattr(r.value, "where", None), path_text(r))
            return
        try:
            clock = {}
            for k in range(len(seq)):
                for e in all_events(after_mark(r.events, "m%d" % k)):
                    if e.kind == "time":
                        clock[k] = value(p, e.ret)
            blind = [k for k, (op, n) in enumerate(seq) if op in ("reset", "timing clock") and k not in clock]
            if blind:
                rep.violation("message", "clock", "%s: call %d (%s) does not read the clock" % (told, blind[0] + 1, seq[blind[0]][0]), "txstatsd/metrics/metrics.py", path_text(r))
                return
            want = expected(which, ns, seq, env, clock)
            for k in range(len(seq)):
                evs = all_events(after_mark(r.events, "m%d" % k))
                if any(e.kind == "loop" and any(callname(x).startswith("cfg:connection") for x in all_events([e]) if x.kind == "call") for e in after_mark(r.events, "m%d" % k)):
                    raise Unknown("writes in a loop of unknown length")
                out = [e for e in evs if e.kind == "call" and callname(e).startswith("cfg:connection.")]
                texts = [value(p, e.args[0]) for e in out if callname(e) == "cfg:connection.write" and e.args]
                if len(texts) != len(out):
                    raise Unknown(callname(out[0]))
                where = out[0].where if out else None
                w = want[k]
                call = "call %d of %s" % (k + 1, told)
                if w is None:
                    if texts:
                        rep.violation("one-message", subj, "%s sends %r, nothing is to be sent" % (call, texts[0]), where, path_text(r))
                        return
                    continue
                rate = w[3]
                if len(texts) > 1 or (not texts and rate >= 1):
                    rep.violation("one-message", subj, "%s sends %d messages %r at %s" % (call, len(texts), texts, brief(env, seq)), where, path_text(r))
                    return
                if not texts:
                    if not any(x and x[0] == "rand" or x and x[0] == "ret" and "random" in str(x[2:3]) for a, _ in r.facts.log for x in walk(a)):
                        rep.violation("one-message", "%s:unsampled" % subj, "%s sends nothing at %s although no sampling took place" % (call, brief(env, seq)), where, path_text(r))
                        return
                    continue
                bad = matches(texts[0], w)
                if bad:
                    rep.violation("message", subj, "%s sends %r: %s, at %s" % (call, texts[0], bad, brief(env, seq)), where, path_text(r))
                    return
                done += 1
        except (NoValue, Unknown) as e:
            rep.undecided("message", told, e)
            return
    if seen:
        rep.ok("message", "%s: %d messages at %d assignments" % (told, done, seen), n=max(done, 1))


def brief(env, seq):
    return "{%s}" % ", ".join("%s=%s" % (show(k), rinterp.fmtnum(v) if isinstance(v, Fraction) else repr(v)) for k, v in sorted(env.items(), key=str) if "size" not in show(k) and "item" not in show(k))
