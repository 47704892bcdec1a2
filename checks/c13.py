"""C13: rings of up to four nodes, among them nodes of which two positions are equal, are built in every order and by
histories of additions, removals and lookups, and the node of each of a set of names is derived by constant
propagation in two processes, which differ in object addresses, hash seeds, clocks and random numbers.  The
node of a name must be that of the set of nodes, whatever the history and the process; a change of the set moves
only the names of the nodes concerned.  The hashing client is interpreted on clients of every kind with
symbolic data, which must reach the client of the name, alone and unmodified, before and after resolution."""
import itertools
from hashlib import sha1
from checks.service import *

ASSUMPTIONS = ["md5 and the other digests of the library are the functions they are known as",
               "names and nodes are a sample; only the process, the order and the history are quantified over"]
TECHNIQUE = "static analysis: constant propagation through the ring over enumerated histories and orders, compared between two process environments (addresses, hash seeds, clocks, random numbers), and abstract interpretation of the hashing client on symbolic data"
H = "txstatsd.hashing"
# the second replicas of the first two have the same position
TIED = ["10.0.246.71:8125", "10.0.97.139:8125"]
NODES = TIED + ["127.0.0.1:8125", "stats.example.org:8126"]
LISTED = 8
KEYS = ["app.requests.10", "app.requests.816"] + ["service%d.%s" % (k, s) for k in range(14) for s in ("count", "time.mean", "x y")]


def number(world, kind, text):
    return int(sha1(("%s %s %s" % (world, kind, text)).encode("latin-1")).hexdigest()[:7], 16)


def process(ctx, world):
    """The analysis of one process: what may differ between processes is a constant of this world."""
    count = [0]

    def fresh(kind, scale=1):
        def f(I, a, k, n):
            count[0] += 1
            return const(number(world, kind, count[0]) / scale)
        return f

    def below(I, a, k, n):
        count[0] += 1
        lo, hi = (0, a[0][1]) if len(a) == 1 else (a[0][1], a[1][1])
        return const(lo + number(world, "randint", count[0]) % max(1, hi - lo))

    def choose(I, a, k, n):
        count[0] += 1
        c = I.obj(a[0]).content if a[0][0] == "obj" else a[0]
        return c[1 + number(world, "choice", count[0]) % (len(c) - 1)]
    ext = {"random.random": fresh("random", 1 << 28), "random.choice": choose}
    for name in ("time.time", "time.clock"):
        ext[name] = fresh("time")
    for name in ("random.getrandbits", "os.getpid", "thread.get_ident"):
        ext[name] = fresh("some")
    for name in ("random.randint", "random.randrange"):
        ext[name] = below
    for name in ("socket.gethostname", "platform.node", "os.urandom", "uuid.uuid4", "uuid.uuid1"):
        ext[name] = lambda I, a, k, n, name=name: const("%s-%s" % (world, name))
    return stubbed(ctx, ext=ext, exact_order=True, unroll=6000, max_paths=60, world=lambda kind, t: number(world, kind, t[1] if t[0] in ("c", "obj") else repr(t)))


def make_node(ctx, I, name):
    return I.call(I.lookup_global("stubs.twisted_model", "RingNode"), [const(name)], {}, None)


def ring_scenario(ctx, start, history, replicas, swap):
    def sc(I):
        c = ctx.need_class(I, H, "ConsistentHashRing")
        names = list(dict.fromkeys(start + [x for op, x in history if op in ("add", "remove", "again")]))
        nodes = {x: make_node(ctx, I, x) for x in (reversed(names) if swap else names)}
        o = I.call(c, [I.new_list([nodes[x] for x in start])], {} if replicas is None else {"replica_count": const(replicas)}, None)
        for op, x in history:
            if op == "get":
                I.call(I.getattr(o, "get_node", None), [const(x)], {}, None)
            elif op == "again":
                nodes[x] = make_node(ctx, I, x)
                I.call(I.getattr(o, "add_node", None), [nodes[x]], {}, None)
            else:
                I.call(I.getattr(o, op + "_node", None), [nodes[x]], {}, None)
        for k in KEYS:
            n = I.call(I.getattr(o, "get_node", None), [const(k)], {}, None)
            I.event("chose", k, [next((const(x) for x, y in nodes.items() if y == n), n)])
        if replicas is None or not start and not history:
            return
        for k in KEYS[:LISTED]:
            v = I.snap(I.call(I.getattr(o, "get_nodes", None), [const(k)], {}, None))
            if v[0] not in ("list", "tuple"):
                raise Undecided("get_nodes gives %s" % show(v)[:60])
            I.event("listed", k, [("tuple",) + tuple(next((const(x) for x, y in nodes.items() if y == n or I.snap(y) == n), n) for n in v[1:])])
    return sc


def chosen(ctx, rep, told, world, start, history, replicas, swap=False):
    """name -> node, or None."""
    I = process(ctx, world)
    rs = ctx.explore(I, ring_scenario(ctx, start, history, replicas, swap))
    r = rs[0]
    if len(rs) != 1 or r.kind == "undecided":
        rep.undecided("ring", told, "%d paths: %s" % (len(rs), [x.value for x in rs if x.kind == "undecided"][:1]))
        return None
    out = {}
    for e in r.events:
        if e.kind == "chose":
            if not is_const(e.args[0]):
                rep.violation("absent", told, "%s: get_node(%r) gives %s, which is not one of the nodes" % (told, e.what, show(e.args[0])[:80]), e.where)
                return None
            out[e.what] = e.args[0][1]
        elif e.kind == "listed":
            bad = [x for x in e.args[0][1:] if not is_const(x)]
            if bad:
                rep.violation("listed", told, "%s: get_nodes(%r) lists %s, which is not one of the nodes" % (told, e.what, show(bad[0])[:80]), e.where)
                return None
            out["listed", e.what] = tuple(x[1] for x in e.args[0][1:])
    if r.kind == "raise":
        rep.violation("raises", told, "%s: raises %s" % (told, r.value), getattr(r.value, "where", None))
        return None
    return out


def histories(thorough):
    """(start, history) lists by the set of nodes they end with."""
    out = []
    for k in (1, 2, 3, 4):
        for s in itertools.combinations(NODES, k):
            orders = list(itertools.permutations(s))
            for o in orders if k < 4 or thorough else orders[::5]:
                out.append((list(o), []))
                out.append(([], [("add", x) for x in o]))
    gets = [("get", k) for k in KEYS[:12]]
    for a, b, c in itertools.permutations(NODES[:3] if not thorough else NODES, 3):
        out += [([a, b], gets + [("add", c)]), ([a, b, c], gets + [("remove", c)]), ([a, b, c], [("remove", a), ("again", a)]), ([a, b, c], gets + [("remove", b), ("add", b)]),
                ([a, b, c], [("remove", b)] + gets + [("remove", a)]), ([a, b], [("remove", a), ("add", c)] + gets + [("again", a), ("remove", c)]), ([a], [("add", b), ("remove", a), ("add", c)]),
                ([a, b], gets + gets), ([a, b], [("add", c), ("remove", c), ("add", c), ("remove", c)])]
    seen, res = set(), []
    for start, h in out:
        if repr((start, h)) not in seen:
            seen.add(repr((start, h)))
            res.append((start, h))
    return res


def final(start, history):
    s = list(start)
    for op, x in history:
        if op in ("add", "again"):
            s.append(x)
        elif op == "remove":
            s.remove(x)
    return tuple(sorted(s))


def run(ctx, rep):
    hs = histories(ctx.thorough)
    jobs = [("ring", s, [h for h in hs if final(*h) == s], n) for s in sorted({final(*h) for h in hs}, key=lambda s: (len(s), s)) for n in ((1, 2, 3) if not ctx.thorough else (1, 2, 3, 7))]
    jobs += [("moves", n) for n in (1, 2, 5)]
    jobs += [("full", world) for world in "AB"]
    jobs += [("client", kind, rest) for kind in ("stub", "udp", "twisted", "ip") for rest in RESTS]
    ctx.pmap(lambda j, rp: dict(ring=ring, moves=moves, full=full, client=client)[j[0]](ctx, rp, *j[1:]), jobs)


def said(start, history):
    return "ring of [%s]%s" % (", ".join(start), "".join("; %s %s" % (op if op != "again" else "add anew", x) for op, x in history if op != "get") + ("; lookups" if any(op == "get" for op, x in history) else ""))


def ring(ctx, rep, s, hs, replicas):
    base = None
    for start, h in hs:
        told = said(start, h)
        for world, swap in (("A", False), ("B", True)) if replicas == 2 else (("A", False),) if base is None else (("B", True),):
            at = "%s, %d replicas" % (told, replicas)
            got = chosen(ctx, rep, at, world, start, h, replicas, swap)
            if got is None:
                continue
            bad = [k for k in KEYS if got.get(k) not in s]
            if bad:
                rep.violation("gone", "%d:%s" % (len(s), bad[0]), "%s: %s goes to %s, which is not in the ring" % (at, bad[0], got.get(bad[0])))
                return
            if not listed(rep, at, got, s):
                return
            if base is None:
                base = (at, world, got)
            bad = [k for k in KEYS[:LISTED] if got.get(("listed", k)) != base[2].get(("listed", k))]
            if bad:
                rep.violation("listed", "%d nodes:history" % len(s), "%s, process %s: the nodes listed for %s are %s; but in %s, process %s, %s" % (
                    at, world, bad[0], got.get(("listed", bad[0])), base[0], base[1], base[2].get(("listed", bad[0]))), "txstatsd/hashing.py")
                return
            bad = [k for k in KEYS if got[k] != base[2][k]]
            if bad:
                same = "the same process" if world == base[1] else "another process"
                rep.violation("history" if world == base[1] else "process", "%d nodes" % len(s), "%s: %s goes to %s; but in %s with %s to %s" % (at, bad[0], got[bad[0]], same, base[0], base[2][bad[0]]),
                              "txstatsd/hashing.py")
                return
            rep.ok("ring", "%s process %s" % (at, world))


def listed(rep, at, got, s):
    """The nodes listed for a name: all, once each, the one the name goes to first."""
    for k in KEYS[:LISTED]:
        v = got.get(("listed", k))
        if v is not None and (sorted(v) != sorted(s) or v[0] != got[k]):
            rep.violation("listed", "%d nodes" % len(s), "%s: the nodes listed for %s, which goes to %s, are %s" % (at, k, got[k], list(v)), "txstatsd/hashing.py")
            return False
    return True


def moves(ctx, rep, replicas):
    by = {}
    for k in (1, 2, 3, 4):
        for s in itertools.combinations(NODES, k):
            by[s] = chosen(ctx, rep, "ring of [%s]" % ", ".join(s), "A", list(s), [], replicas)
    for s, got in by.items():
        for x in s:
            t = tuple(y for y in s if y != x)
            if not t or got is None or by[t] is None:
                continue
            bad = [k for k in KEYS if got[k] != x and by[t][k] != got[k]]
            if bad:
                rep.violation("moves", "%d nodes" % len(s), "of the nodes [%s], %s goes to %s, but without %s to %s" % (", ".join(s), bad[0], got[bad[0]], x, by[t][bad[0]]), "txstatsd/hashing.py")
                return
            bad = [k for k in KEYS[:LISTED] if ("listed", k) in got and tuple(y for y in got["listed", k] if y != x) != by[t].get(("listed", k))]
            if bad:
                rep.violation("moves", "%d nodes:listed" % len(s), "of the nodes [%s], those listed for %s are %s, but without %s %s" % (
                    ", ".join(s), bad[0], list(got["listed", bad[0]]), x, list(by[t].get(("listed", bad[0]), ()))), "txstatsd/hashing.py")
                return
            rep.ok("moves", "[%s] without %s, %d replicas" % (", ".join(s), x, replicas))


def full(ctx, rep, world):
    """The default number of replicas: the order of two tied nodes."""
    got = [chosen(ctx, rep, "ring of [%s] in full" % ", ".join(s), w, s, [], None, w == "B") for s, w in ((TIED, world), (TIED[::-1], "B" if world == "A" else "A"))]
    if None in got:
        return
    bad = [k for k in KEYS if got[0][k] != got[1][k]]
    if bad:
        rep.violation("process", "full", "with the default number of replicas, %s goes to %s in one process and order and to %s in another" % (bad[0], got[0][bad[0]], got[1][bad[0]]), "txstatsd/hashing.py")
    else:
        rep.ok("ring", "default number of replicas, process %s" % world)


# ------------------------------------------------------------------ the client
RESTS = ["sym", "1|c", "User:12|pd ", "3.5|ms|@0.1", "1|c\nother:2|c"]
NAMES = ["app.requests.816", "service1.count", "service3.time.mean", "service8.x y", "service5.count", "service6.count", "service11.count"]
ADDR = {"A": {"h1.example.org": "10.1.0.1", "h2.example.org": "10.1.0.2"}, "B": {"h1.example.org": "192.0.2.99", "h2.example.org": "10.1.0.1"}}


def data(name, rest, k):
    return cat([const(name + ":"), sym("rest%d" % k, "str")]) if rest == "sym" else const("%s:%s" % (name, rest))


def client_scenario(ctx, kind, rest, world, swap, when):
    def sc(I):
        hosts = ["h1.example.org", "h2.example.org"] if kind != "ip" else ["10.0.246.71", "10.0.97.139"]
        made = []

        def resolve(I, base, args, kw, node):
            d = I.call(I.lookup_global("stubs.twisted_model", "Deferred"), [], {}, None)
            made.append((args[0], d))
            return d
        I.cfg.opaque_methods["resolve"] = resolve
        where = ADDR[world]
        I.cfg.ext["socket.getaddrinfo"] = lambda I, a, k, n: I.new_list([("tuple", const(2), const(2), const(17), const(""), ("tuple", const(where.get(a[0][1], a[0][1])), a[1]))])
        I.cfg.ext["socket.gethostbyname"] = lambda I, a, k, n: const(where.get(a[0][1], a[0][1]))

        def send(I, base, args, kw, node):
            ret = ("ret", I.fresh(), "sendto", "int")
            I.event("call", ("attr", base, "sendto"), args, kw, node=node, ret=ret)
            return ret
        I.cfg.opaque_methods["sendto"] = send
        I.cfg.ext["socket.socket"] = lambda I, a, k, n: sym("socket%d" % I.fresh(), "obj")
        nodes = {}
        for h in hosts[::-1] if swap else hosts:
            if kind == "stub":
                nodes[h] = make_node(ctx, I, "%s:8125" % h)
            elif kind == "udp" or kind == "ip":
                nodes[h] = I.call(ctx.need_class(I, "txstatsd.client", "UdpStatsDClient"), [const(h), const(8125)], {}, None)
            else:
                nodes[h] = I.call(I.getattr(ctx.need_class(I, "txstatsd.protocol", "TwistedStatsDClient"), "create", None), [const(h), const(8125)], {"reactor": sym("cfg:reactor", "obj")}, None)

        def resolved():
            start = len(I.st.events)
            for h, d in made:
                I.call(I.getattr(d, "callback", None), [const(where.get(h[1], h[1]))], {}, None)
            made[:] = []
            settle(I, start)
        if kind == "twisted":
            for h, o in nodes.items():
                start = len(I.st.events)
                proto = I.call(ctx.need_class(I, "txstatsd.protocol", "StatsDClientProtocol"), [o], {}, None)
                I.setattr(proto, "transport", sym("transport:%d" % o[1], "obj"), None)
                I.call(I.getattr(proto, "startProtocol", None), [], {}, None)
                settle(I, start)
        if when == "before":
            resolved()
        c = I.call(ctx.need_class(I, "txstatsd.client", "ConsistentHashingClient"), [I.new_list([nodes[h] for h in (hosts[::-1] if swap else hosts)])], {}, None)
        I.event("mark", "ring")
        start = len(I.st.events)
        I.call(I.getattr(c, "connect", None), [], {}, None)
        settle(I, start)
        for k, n in enumerate(NAMES):
            if when == "between" and k == len(NAMES) // 2:
                resolved()
            start = len(I.st.events)
            for m in range(2):
                I.event("mark", "w%d.%d" % (k, m))
                I.call(I.getattr(c, "write", None), [data(n, rest if m else "1|c", k)], {}, None)
            settle(I, start)
        I.event("mark", "last")
        if when == "after":
            resolved()
        I.event("mark", "end")
        I.event("nodes", "nodes", [("tuple",) + tuple(("tuple", const(h), const(o[1])) for h, o in nodes.items())])
        for h, o in nodes.items():
            if kind == "stub":
                I.event("given", h, [I.getattr(o, "given", None)])
    return sc


def client(ctx, rep, kind, rest):
    base = None
    whens = ("before", "between", "after") if kind == "twisted" else ("between",)
    for when, world, swap in [(w, x, s) for w in whens for x, s in (("A", False), ("B", True), ("B", False))]:
        I = process(ctx, world)
        rs = ctx.explore(I, client_scenario(ctx, kind, rest, world, swap, when))
        told = "hashing client over %s clients%s, data %r, process %s, %s order" % (kind, ", resolved %s writing" % when if kind == "twisted" else "", rest if rest != "sym" else "any", world, "reverse" if swap else "given")
        out = {}
        for r in rs:
            if r.kind == "undecided":
                rep.undecided("client", told, r.value)
                return
            if r.kind == "raise":
                rep.violation("raises", "%s:%d" % (kind, RESTS.index(rest)), "%s: raises %s" % (told, r.value), getattr(r.value, "where", None), path_text(r))
                return
            if rest == "sym" and on_path(r, point()) is not True:
                continue
            got = given(rep, told, kind, rest, r)
            if got is None:
                return
            for n, h in got.items():
                if out.setdefault(n, h) != h:
                    rep.violation("same", "%s:%d" % (kind, RESTS.index(rest)), "%s: data of %s go to %s, others of the same name to %s" % (told, n, h, out[n]), "txstatsd/client.py", path_text(r))
                    return
        if len(out) < len(NAMES):
            rep.undecided("client", told, "no path is known to be that of the data")
            return
        if base is None:
            base = (told, out)
        bad = [n for n in out if out[n] != base[1].get(n)]
        if bad:
            rep.violation("process" if "process A" not in told else "history", "client:" + kind, "%s: %s goes to %s, but with %s to %s" % (told, bad[0], out[bad[0]], base[0], base[1].get(bad[0])),
                          "txstatsd/client.py")
            return
        rep.ok("client", told)


def point():
    p = Point(random.Random(7), {sym("rest%d" % k, "str"): "User x:%d.50|MS |@0.1\n" % k for k in range(len(NAMES))})
    p.approx = True
    return p


def differ(d, left):
    """Whether what is sent is another text than d at some value of the data."""
    p = point()
    try:
        return value(p, d) not in [value(p, x[0]) for x in left]
    except (NoValue, Unknown):
        return False


def given(rep, told, kind, rest, r):
    """name -> host of the one client its data reached, as written; None: reported."""
    host = {int(t[2][1]): t[1][1] for e in r.events if e.kind == "nodes" for t in e.args[0][1:]}
    sent = []
    if kind == "stub":
        for e in r.events:
            if e.kind == "given":
                c = e.args[0]
                if c[0] != "list":
                    rep.undecided("client", told, "what was given: " + show(c)[:80])
                    return None
                sent += [(x, e.what, None) for x in c[1:]]
    else:
        for e in all_events(r.events[next(i for i, e in enumerate(r.events) if e.kind == "mark" and e.what == "ring"):]):
            nm = callname(e) if e.kind == "call" else ""
            last = nm.split(".")[-1]
            if last == "sendto" and len(e.args) > 1 and e.args[1][0] == "tuple" and is_const(e.args[1][1]):
                ip = e.args[1][1][1]
                world = "B" if "process B" in told else "A"
                sent.append((e.args[0], next((h for h, i in ADDR[world].items() if i == ip), ip), e.where))
            elif nm.startswith("transport:") and last in ("write", "writeTo", "sendto"):
                sent.append((e.args[0], host[int(nm.split(".")[0][10:])], e.where))
    out = {}
    want = [(n, data(n, rest if m else "1|c", k)) for k, n in enumerate(NAMES) for m in range(2)]
    left = list(sent)
    for n, d in want:
        hit = next((x for x in left if x[0] == d), None)
        if hit is None:
            odd = [x for x in left if x not in [w for _, w in want]]
            if len(left) < 1 or differ(d, left):
                rep.violation("data", "%s:%d" % (kind, RESTS.index(rest)), "%s: %s is not sent as it is to one client; sent: %s" % (told, show(d), ", ".join(show(x[0]) for x in left[:3]) or "nothing"),
                              left[0][2] if left else "txstatsd/client.py", path_text(r))
            else:
                rep.undecided("client", told, "%s is not among what is sent: %s" % (show(d), ", ".join(show(x[0])[:80] for x in left[:3])))
            return None
        left.remove(hit)
        if out.setdefault(n, hit[1]) != hit[1]:
            rep.violation("same", "%s:%d" % (kind, RESTS.index(rest)), "%s: data of %s go to %s and to %s" % (told, n, out[n], hit[1]), hit[2], path_text(r))
            return None
    if left:
        rep.violation("copies", "%s:%d" % (kind, RESTS.index(rest)), "%s: %s is sent to %s as well" % (told, show(left[0][0]), left[0][1]), left[0][2], path_text(r))
        return None
    return out
