"""C14: routers are built from sets of one to three rules that combine every condition with every target,
with a service and without, and given messages with symbolic name, type and fields; at assignments of
these, what reaches the processor and the redirects is compared with a reference of the documented
rules.  Rule sets with unknown or malformed conditions and targets must be refused on every path."""
import fnmatch
import re
from checks.service import *

ASSUMPTIONS = ["names are matched case-sensitively (POSIX)", "calls scheduled in the reactor are made once and in order",
               "for dup, patterns are judged on names in which they match at the beginning or nowhere"]
TECHNIQUE = "static analysis: abstract interpretation of the router on bounded rule sets with symbolic messages; sent and processed terms evaluated against a reference of the rules"

KEY, TYPE, MSG = sym("key", "str"), sym("mtype", "str"), sym("message", "str")


def FIELD(i):
    return sym("field%d" % i, "str")


CONDS = ["any", "metric_type c", "metric_type ms g", "path_like gor*", "path_like *.x", "path_like a?c[0-9]", "not any", "not metric_type c d",
         "not path_like gor*", "not not path_like *.x"]
TARGETS = ["drop", r"rewrite ^gor(.)ts new.\1", r"rewrite ^gor(.)ts gorets.x dup", "rewrite o 0 no-dup", "rewrite ^nothing z dup", "set_metric_type ms", "set_metric_type d dup",
           "set_metric_type g no-dup", "redirect_udp 127.0.0.1 9001", "redirect_tcp 127.0.0.1 9002"]
KEYS = ["gorets", "gorats", "glork.x", "gorets.x", "abc1", "GORETS", "nothing.x", "new.e", "foo.loot", "a.gorets", "a.c3"]
TYPES = ["c", "ms", "g", "d", "m", "s"]
REFUSED = ["anything => drop", "any => dorp", "nope x => drop", "any => send 127.0.0.1 1", "not nope => drop", "any => drop\nsome => drop",
           "any => drop\nany => copy", "metric_types c => drop", "any => redirect 127.0.0.1 9001", "not not unknown a => drop"]


def reference(rules, msg, service):
    """(processed, redirected by port) for one message."""
    def cond(parts, m):
        if parts[0] == "not":
            return not cond(parts[1:], m)
        if parts[0] == "any":
            return True
        if parts[0] == "metric_type":
            return m[0] in parts[1:]
        return fnmatch.fnmatchcase(m[1], parts[1])
    sent, cur = {}, [msg]
    for line in rules:
        c, t = [x.split() for x in line.split("=>")]
        nxt = []
        for m in cur:
            mt, key, fields = m
            if not cond(c, m):
                nxt.append(m)
            elif t[0] == "drop":
                pass
            elif t[0] == "rewrite":
                if t[-1] == "dup" and len(t) > 3 and re.match(t[1], key):
                    nxt.append(m)
                nxt.append((mt, re.sub(t[1], t[2], key), fields))
            elif t[0] == "set_metric_type":
                if len(t) > 2 and t[2] == "dup":
                    nxt.append(m)
                nxt.append((t[1], key, fields))
            else:
                if service:
                    sent.setdefault(int(t[2]), []).append(text(m))
                nxt.append(m)
        cur = nxt
    return cur, sent


def text(m):
    mt, key, fields = m
    return key + ":" + "|".join([fields[0], mt] + list(fields[2:]))


def router(ctx, I, rules, service):
    c = ctx.need_class(I, "txstatsd.server.router", "Router")
    o = I.call(c, [sym("cfg:processor", "obj"), const(rules)] + ([sym("cfg:service", "obj")] if service else []), {}, None)
    heap = I.st.heap
    for i in sorted(heap):
        ob = heap.peek(i)
        if ob.kind != "inst":
            continue
        who = lineage(I, ob.cls)
        if any(q.endswith(".UDPServer") for q in who):
            proto = attr(I, heap, i, "protocol")
            tr = sym("udp:%d" % i, "obj")
            I.setattr(proto, "transport", tr, None)
            I.call(I.getattr(proto, "startProtocol", None), [], {}, None)
        elif any(q.endswith("ReconnectingClientFactory") for q in who):
            f = ("obj", i)
            proto = I.call(I.getattr(f, "buildProtocol", None), [sym("addr", "obj")], {}, None)
            I.call(I.getattr(proto, "makeConnection", None), [sym("tcp:%d" % i, "obj")], {}, None)
    return o


def scenario(ctx, rules, service, nfields, twice=False):
    def sc(I):
        start = len(I.st.events)
        o = router(ctx, I, "\n".join(rules), service)
        settle(I, start)
        for k in range(2 if twice else 1):
            I.event("mark", "m%d" % k)
            start = len(I.st.events)
            mt, key = (TYPE, KEY) if not k else (sym("mtype2", "str"), sym("key2", "str"))
            fields = I.new_list([FIELD(0), mt] + [FIELD(i) for i in range(2, nfields)])
            I.call(I.getattr(o, "process_message", None), [MSG, mt, key, fields], {}, None)
            settle(I, start)
        I.event("mark", "end")
    return sc


def rulesets(thorough):
    out = [[]]
    out += [["%s => %s" % (c, t)] for c in CONDS for t in TARGETS]
    c3 = ["any", "metric_type c", "path_like gor*", "not path_like *.x"]
    t3 = [t for t in TARGETS if "nothing" not in t]
    out += [["%s => %s" % (c1, t1), "%s => %s" % (c2, t2)] for i, t1 in enumerate(t3) for j, t2 in enumerate(t3) for c1 in [c3[(i + j) % 4]] for c2 in [c3[(i + 2 * j + 1) % 4]]]
    if thorough:
        out += [["%s => %s" % (c1, t1), "%s => %s" % (c2, t2)] for t1 in t3 for t2 in t3 for c1 in c3 for c2 in c3]
    dup = "set_metric_type ms dup"
    out += [["any => " + dup, "metric_type ms => drop"], ["any => " + dup, "metric_type c => drop"], ["any => " + dup, "metric_type ms => rewrite o 0", "any => redirect_tcp h.example 9002"],
            ["any => " + dup, "metric_type ms => " + r"rewrite ^gor(.)ts a.\1 dup", "not path_like a* => drop"], ["any => drop", "any => " + dup, "any => redirect_udp 127.0.0.1 9001"],
            ["any => redirect_udp 127.0.0.1 9001", "any => rewrite o 0", "any => redirect_tcp 127.0.0.1 9002"],
            ["any => redirect_udp 127.0.0.1 9001", "any => set_metric_type g", "metric_type g => redirect_udp 127.0.0.1 9003"],
            ["any => redirect_tcp 127.0.0.1 9002", "any => set_metric_type g dup", "metric_type g => redirect_tcp 127.0.0.1 9004"],
            ["path_like gor* => redirect_tcp 127.0.0.1 9002", "any => drop"], ["any => " + dup, "any => " + dup, "any => redirect_tcp 127.0.0.1 9002"],
            ["", "any => rewrite o 0", "", "any => rewrite 0 u"], ["  any   =>   rewrite   o   0  "], ["any=>drop"], ["metric_type c  ms=>set_metric_type g"]]
    return out


def run(ctx, rep):
    jobs = [(rules, service, n) for rules in rulesets(ctx.thorough) for service in (True, False) for n in ((2, 3) if len(rules) < 2 or ctx.thorough else (3,))
            if service or any("redirect" in x for x in rules)]
    jobs = [j + (False,) for j in jobs] + [(r, True, 2, True) for r in rulesets(False)[:1] + [["any => " + t] for t in TARGETS] + [["any => set_metric_type ms dup", "metric_type ms => rewrite o 0"]]]
    size = 8
    ctx.pmap(lambda js, rp: [judge_rules(ctx, rp, *j) for j in js], [jobs[i:i + size] for i in range(0, len(jobs), size)])
    refused(ctx, rep)


def judge_rules(ctx, rep, rules, service, nfields, twice):
    I = stubbed(ctx)
    rs = ctx.explore(I, scenario(ctx, [r for r in rules], service, nfields, twice))
    told = "rules [%s]%s" % ("; ".join(rules), "" if service else " without a service")
    used = [x.split("=>")[1].split()[0] for x in rules if x]
    subj = used[-1] if len(used) == 1 else "several" if used else "none"
    for r in rs:
        if r.kind == "undecided":
            rep.undecided("routed", told, r.value)
    n = 0
    F0, F2 = "3", "@0.5"
    live = [x for x in rules if x]
    for a, key in enumerate(KEYS):
        for b, mt in enumerate(TYPES):
            env = {KEY: key, TYPE: mt, FIELD(0): F0, FIELD(2): F2, sym("key2", "str"): KEYS[(a + b + 1) % len(KEYS)], sym("mtype2", "str"): TYPES[(b + a) % len(TYPES)]}
            hit = pick(rs, env, ctx.seed)
            if hit is None:
                rep.undecided("routed", told, "no path for %s of type %s" % (key, mt))
                continue
            r, p = hit
            if r.kind == "raise":
                rep.violation("raises", subj, "with the %s the message %s of type %s: %s" % (told, key, mt, r.value), getattr(r.value, "where", None), path_text(r))
                return
            for k in range(2 if twice else 1):
                m = ((env[TYPE], env[KEY]) if not k else (env[sym("mtype2", "str")], env[sym("key2", "str")]))
                msg = (m[0], m[1], [F0, m[0], F2][:nfields])
                try:
                    if not compare_one(rep, told, subj, r, p, k, live, msg, service):
                        return
                    n += 1
                except (NoValue, Unknown) as e:
                    rep.undecided("routed", told, e)
                    return
    if n:
        rep.ok("routed", "%s: %d messages" % (told, n), n=n)


def compare_one(rep, told, subj, r, p, k, rules, msg, service):
    want, sent = reference(rules, msg, service)
    evs = after_mark(r.events, "m%d" % k)
    done, out = [], {}
    where = None
    for e in flat(evs):
        nm = callname(e)
        if nm.startswith("cfg:processor."):
            if not nm.endswith(".process_message") or len(e.args) + len(e.kw) != 4:
                raise Unknown(nm)
            order = ["message", "metric_type", "key", "fields"]
            vals = dict(zip(order, e.args))
            vals.update(e.kw)
            fields = listed(r.state.heap, vals["fields"])
            if fields is None:
                raise Unknown("fields %s" % show(vals["fields"]))
            done.append((value(p, vals["metric_type"]), value(p, vals["key"]), [value(p, x) for x in fields], value(p, vals["message"])))
            where = where or e.where
        elif nm.startswith(("udp:", "tcp:")) and nm.endswith(".write"):
            data = value(p, e.args[0])
            out.setdefault(port_of(r, nm, e, p), []).append(data[:-2] if nm.startswith("tcp:") and data.endswith("\r\n") else data)
            where = where or e.where
    src = "with the %s the message %s" % (told, text(msg))
    got = sorted((d[0], d[1], d[2][0], tuple(d[2][2:])) for d in done)
    exp = sorted((m[0], m[1], m[2][0], tuple(m[2][2:])) for m in want)
    if got != exp:
        rep.violation("processed", subj, "%s is processed as %s instead of %s" % (src, names(got), names(exp)), where, path_text(r))
        return False
    texts = sorted(d[3] for d in done)
    if texts != sorted(text(m) for m in want):
        rep.violation("processed", "%s:message" % subj, "%s is handed on as the message %s instead of %s" % (src, texts, sorted(text(m) for m in want)), where, path_text(r))
        return False
    for port in sorted(set(out) | set(sent)):
        if sorted(out.get(port, [])) != sorted(sent.get(port, [])):
            rep.violation("redirected", subj, "%s is sent to port %s as %s instead of %s" % (src, port, out.get(port, []), sent.get(port, [])), where, path_text(r))
            return False
    return True


def names(ms):
    return "[%s]" % ", ".join("%s of type %s" % (m[1], m[0]) + ("" if m[2:] == ("3", ()) else " %s" % (m[2:],)) for m in ms)


def flat(evs):
    for e in evs:
        if e.kind == "call":
            yield e
        elif e.kind == "loop" and any(callname(x).startswith(("cfg:processor", "udp:", "tcp:")) for x in all_events([e]) if x.kind == "call"):
            raise Unknown("a loop of unknown length hands messages on")


def port_of(r, nm, e, p):
    i = int(nm.split(":")[1].split(".")[0])
    heap = r.state.heap
    if nm.startswith("udp:"):
        a = e.args[1] if len(e.args) > 1 else None
        if a is not None and a[0] == "tuple" and len(a) == 3:
            return int(value(p, a[2]))
        raise Unknown("the address of a datagram")
    for x in r.events:
        if x.kind == "call" and callname(x).endswith("connectTCP") and ("obj", i) in x.args:
            return int(value(p, x.args[1]))
    # the service that holds the factory
    for j in sorted(heap):
        o = heap.peek(j)
        if o.kind == "inst" and ("obj", i) in o.attrs.values():
            for v in o.attrs.values():
                if is_const(v) and isinstance(v[1], (int, Fraction)) and not isinstance(v[1], bool) and v[1] > 1000:
                    return int(v[1])
    raise Unknown("the port of a connection")


def refused(ctx, rep):
    for rules in REFUSED:
        I = stubbed(ctx)

        def sc(I):
            return router(ctx, I, rules, True)
        rs = ctx.explore(I, sc)
        for r in rs:
            if r.kind == "undecided":
                rep.undecided("refused", rules, r.value)
            elif r.kind == "raise":
                rep.ok("refused", rules.replace("\n", "; "))
            else:
                rep.violation("refused", rules.replace("\n", "; ").replace(" ", "_"), "the rules %r are accepted" % rules, None, path_text(r))
