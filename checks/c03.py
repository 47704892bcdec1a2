"""C03: for each processor kind, every abstract path of process(message) is evaluated at messages
whose name contains each possible byte, runs and mixtures of whitespace, slashes and others; each
name-keyed entry the path touches must be keyed by the normalised name.  For the router in front,
with and without rules, the name given to the processor and the subject of every pattern of a rule
must be the normalised name."""
from checks.common import *
import re as _re

ASSUMPTIONS = ["messages are byte strings", "names a rewrite rule produces are the administrator's"]
TECHNIQUE = "static analysis: path summaries of process() and of the router over a symbolic message; name terms evaluated over name classes and compared with the specified normalisation"

TYPES = ("c", "ms", "g", "m", "sli", "pd")


def names(seed, thorough):
    rng = random.Random(seed)
    out = []
    for i in range(256):
        ch = chr(i)
        if ch != ":":
            out += ["a" + ch + "b"]
    for i in (0, 9, 10, 32, 45, 46, 47, 95, 65, 122, 48, 57, 64, 128, 255, 160, 133, 124):
        ch = chr(i)
        out += [ch + "x", "x" + ch, "x" + ch + ch + "y", "p" + ch + "." + ch + "q", "/" + ch + "/z", " " + ch + " z"]
    out += ["a \t\n b", "a///b", "/a/", "//", "a / b", "a/ /b", "UPPER.Case-9_", "...", "a..b", "-_.", "!@#$%^&*()", "x" * 300,
            "a b c d", "a/b/c/d", "/".join("abcdefghijklmnopqrstuvwxyz" * 3), " ".join("ABCDEFGHIJKLMNOPQRSTUVWXYZ" * 3), "!".join("0123456789" * 6), "tab\there", "q'\"`\\", "{}[]<>", "a,b;c=d", "caf\xc3\xa9", "\xff\xfe", "", "!", "0", "name with  2"]
    alphabet = "aZ09_-. /\t!~\xa0\x85\x1c\x00|"
    for _ in range(1500 if thorough else 120):
        out.append("".join(rng.choice(alphabet) for _ in range(rng.randint(1, 9))))
    return list(dict.fromkeys(n for n in out if n not in TYPES))


def run(ctx, rep):
    ns = names(ctx.seed, ctx.thorough)
    rep.facts["names"] = len(ns)
    jobs = [("p", k) for k in KINDS] + [("r", x) for x in RULES]
    ctx.pmap(lambda j, rp: (processors if j[0] == "p" else routers)(ctx, rp, j[1], ns), jobs)


def evaluate(m, t):
    p = Point(random.Random(1), {MESSAGE: m})
    v = p.ev(t)
    if p.unknown_ops or rinterp.free(t) - {MESSAGE}:
        raise Unknown("no interpretation")
    return v


def normal(n):
    """The name of the message 'n:...': leading whitespace of the line is stripped."""
    return spec_normalise(n.lstrip(" \t\n\r\x0b\x0c"))


def processors(ctx, rep, kind, ns):
    S = ProcessorSummary(ctx, kind)
    plan = []
    for r in S.paths:
        if r.kind == "undecided":
            rep.undecided("normalised-key", "%s.process" % kind, r.value)
            continue
        if r.kind == "raise":
            continue
        terms = []
        heap = r.state.heap
        for f in effects(r):
            if f.fresh:
                continue
            if f.target[0] == "obj" and f.target[1] in heap:
                mk = (heap.peek(f.target[1]).extra or {}).get("matkey")
                if mk is not None:
                    terms.append((mk, f))
                    continue
            if f.what == "item" and f.label and f.label.startswith("self.") and f.label.count(".") == 1 and "[" not in f.label:
                terms.append((f.key, f))
        seen, uniq = set(), []
        for t, f in terms:
            if t not in seen:
                seen.add(t)
                uniq.append((t, f))
        if uniq:
            plan.append((r, uniq))
    rep.anchor(plan, "no path of process() of the %s processor touches an aggregate" % kind)
    for t in TYPES:
        msgs = {"%s:1|%s" % (n, t): n for n in ns}
        M = Matcher(ctx.seed, list(msgs))
        hit = set()
        for r, uniq in plan:
            ms, opaque, other = M.messages(r)
            for m in ms:
                want = normal(msgs[m])
                for term, f in uniq:
                    try:
                        got = evaluate(m, term)
                    except (NoValue, Unknown) as e:
                        rep.undecided("normalised-key", "%s:%s" % (kind, f.label), "%s" % e)
                        continue
                    if got == t:
                        continue
                    hit.add(m)
                    if got != want:
                        rep.violation("normalised-key", "%s:%s" % (kind, t), "the message %r is aggregated under %r, not %r (entry of %s)" % (m, got, want, f.label),
                                      f.where, path_text(r))
                    else:
                        rep.ok("normalised-key", "%r -> %r" % (m, got))
        lost = [m for m in msgs if m not in hit]
        if lost:
            rep.undecided("normalised-key", "%s:%s" % (kind, t), "no name entry found for %d messages, e.g. %r" % (len(lost), lost[0]))


RULES = ["", "path_like zz* => drop", "any => set_metric_type c", "not path_like q.* => set_metric_type g dup",
         "metric_type c g => rewrite ^qq rr", "path_like a?b => drop\npath_like [x]* => set_metric_type m"]


def routers(ctx, rep, rules, ns):
    I = ctx.interp()

    def sc(I):
        c = ctx.need_class(I, "txstatsd.server.router", "Router")
        o = I.call(c, [sym("cfg:processor", "obj"), const(rules)], {}, None)
        start_mark(I)
        I.call(I.getattr(o, "process", None), [MESSAGE], {}, None)
    rs = ctx.explore(I, sc)
    subj = "router:%s" % (rules.replace("\n", ";") or "no rules")
    for t in ("c", "g", "sli"):
        msgs = {"%s:1|%s" % (n, t): n for n in ns}
        M = Matcher(ctx.seed, list(msgs))
        done = 0
        for r in rs:
            if r.kind == "undecided":
                rep.undecided("routed-normalised", subj, r.value)
                continue
            if r.kind == "raise":
                continue
            keys = []
            for e in all_events(r.events):
                if e.kind == "call" and callname(e).endswith(".process_message") and len(e.args) >= 3:
                    keys.append(("given to the processor", e.args[2], e.where, "rewrite" in rules))
            for at, v in r.facts.log:
                for x in walk(at):
                    if x and x[0] == "fnmatch" and contains(x[1], MESSAGE):
                        keys.append(("matched by a rule", x[1], None, False))
            if not keys:
                continue
            own, other = M.split(r.facts.log)
            for m, n in msgs.items():
                if M.takes(m, own) is not True:
                    continue
                want = normal(n)
                for what, term, where, rewr in keys:
                    try:
                        got = evaluate(m, term)
                    except (NoValue, Unknown) as e:
                        rep.undecided("routed-normalised", subj, e)
                        continue
                    if not isinstance(got, str):
                        continue
                    w = want
                    if rewr and what.startswith("given"):
                        w = _re.sub("^qq", "rr", want) if t in ("c", "g") else want
                    if got != w and not (rewr and got == want):
                        if got == "1" or got == t:
                            continue
                        rep.violation("routed-normalised", "%s:%s" % (subj, what), "the message %r is %s under %r, not %r" % (m, what, got, w), where, path_text(r))
                    else:
                        done += 1
        if done:
            rep.ok("routed-normalised", "%s with type %s: %d names" % (subj, t, done), n=done)
        else:
            rep.undecided("routed-normalised", subj, "no name reaches the processor with type %s" % t)
