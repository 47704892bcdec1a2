"""C31: the parsers of the proc files are interpreted over generated contents whose figures are symbols (texts of
digits), and the reports of psutil's figures over its named tuples with symbolic fields; every reported figure is
compared with the field it is labelled with."""
import itertools
from checks.service import *

ASSUMPTIONS = ["the proc files have the kernel's format", "psutil is one of the releases that requirements.txt admits"]
TECHNIQUE = "static analysis: abstract interpretation of the parsers over file contents with symbolic figures, and of the reports over named tuples with symbolic fields; reported terms compared field by field"
P_ = "txstatsd.process"
DIGITS = set("0123456789")
NAME = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_@")
PARSERS = {"meminfo": "parse_meminfo", "loadavg": "parse_loadavg", "netdev": "parse_netdev"}


def fig(name, real=False):
    return sym("figure:" + name, "str")


def parsed(t, real=False):
    return ("float", t) if real else ("int", t)


class File(object):
    """A content under construction, with the figures it should give."""
    def __init__(self):
        self.parts, self.want, self.syms, self.told = [], {}, {}, []

    def text(self, s):
        self.parts.append(const(s))

    def figure(self, name, real=False, alphabet=None):
        t = fig(name)
        self.syms[t] = alphabet or (DIGITS | set(".") if real else DIGITS)
        self.parts.append(t)
        return t

    def content(self):
        return cat(self.parts)


REPORTED = ["MemTotal", "MemFree", "Buffers", "Cached", "SwapCached", "SwapTotal", "SwapFree"]
OTHERS = ["MemAvailable", "Active", "Active(anon)", "HugePages_Total", "Hugepagesize", "Committed_AS", "VmallocTotal", "DirectMap4k", "Shmem", "CmaFree", "MemTotalExtra", "Total"]


def meminfo(rows, end, prefix):
    """rows: (key, unit, spaces) or None for an empty line."""
    f = File()
    for i, row in enumerate(rows):
        if i:
            f.text("\n")
        if row is None:
            continue
        key, unit, width = row
        f.text(key + ":" + " " * width)
        t = f.figure("%s%d" % (key, i))
        if unit:
            f.text(" " + unit)
        if key in REPORTED:
            f.want[cat((prefix, const("." + key)))] = num_mul(("int", t), {"kB": 1024, "mB": 1024 * 1024}.get(unit, 1))
    f.text(end)
    return f


def num_mul(t, k):
    return t if k == 1 else ("mul", t, const(k))


def meminfos(thorough):
    d = const("sys.mem")
    p = sym("cfg:prefix", "str")
    full = [(k, "kB", 8) for k in REPORTED[:2] + OTHERS[:2] + REPORTED[2:5] + OTHERS[2:3] + REPORTED[5:]] + [("HugePages_Total", "", 7), ("Hugepagesize", "kB", 7), ("VmallocTotal", "kB", 1)]
    yield "every key", [full, "\n", d]
    yield "every key, without the last newline", [full, "", d]
    yield "every key under another prefix", [full, "\n", p]
    yield "no line", [[], "", d]
    yield "every key in reverse order", [full[::-1], "\n", d]
    for k in REPORTED:
        for unit in ("kB", "", "mB"):
            yield "%s in %s" % (k, unit or "no unit"), [[(k, unit, 5)], "\n", d]
    for k in OTHERS:
        for unit in ("kB", ""):
            yield "the other key %s in %s between two reported ones" % (k, unit or "no unit"), [[("MemTotal", "kB", 8), (k, unit, 3), ("SwapFree", "kB", 6)], "\n", d]
    for i in range(3):
        rows = [("MemTotal", "kB", 8), ("SwapFree", "kB", 6)]
        rows.insert(i, None)
        yield "an empty line at %d" % (i + 1), [rows, "\n", d]
    yield "other keys only", [[(k, "kB", 4) for k in OTHERS], "\n", d]
    for n in ((1, 2, 12) if not thorough else range(1, 16)):
        yield "%d spaces before the figures" % n, [[(k, "kB", n) for k in REPORTED], "\n", d]


LABELS = ["oneminute", "fiveminutes", "fifthteenminutes"]


def loadavg(seps, end, prefix):
    f = File()
    for i, label in enumerate(LABELS):
        t = f.figure(label, real=True)
        f.want[cat((prefix, const("." + label)))] = ("float", t)
        f.text(seps)
    f.figure("running")
    f.text("/")
    f.figure("processes")
    f.text(seps)
    f.figure("last")
    f.text(end)
    return f


RECV = "bytes packets errs drop fifo frame compressed multicast".split()
SEND = "bytes packets errs drop fifo colls carrier compressed".split()


def netdev(devices, recv, send, end, glue, prefix, shape):
    """devices: names (or None for a symbol); glue: the text after the colon; shape: spaces as the kernel pads."""
    f = File()
    if shape == "kernel":
        f.text("Inter-|   Receive                                                |  Transmit\n face |%s|%s\n" % ("    ".join(recv), " ".join(send)))
    else:
        f.text("Inter-|Receive|Transmit\nface|%s|%s\n" % (" ".join(recv), "  ".join(send)))
    for n, dev in enumerate(devices):
        if n:
            f.text("\n")
        if shape == "kernel":
            f.text("  ")
        if dev is None:
            dev = f.figure("device%d" % n, alphabet=NAME)
        else:
            f.text(dev)
            dev = const(dev)
        f.text(":" + glue)
        got = {}
        for side, cols in (("recv", recv), ("send", send)):
            for c in cols:
                got[side, c] = f.figure("%d:%s:%s" % (n, side, c))
                f.text("    " if shape == "kernel" else " ")
        for c in ("bytes", "packets"):
            for side, word in (("recv", "received"), ("send", "sent")):
                f.want[cat((prefix, const("."), dev, const(".%s.%s" % (c, word))))] = ("int", got[side, c])
    f.text(end)
    return f


def netdevs(thorough):
    d, p = const("sys.net"), sym("cfg:prefix", "str")
    yield "three devices", [["lo", "eth0", "tun0"], RECV, SEND, "\n", " ", d, "kernel"]
    yield "one device of any name", [[None], RECV, SEND, "\n", " ", d, "kernel"]
    yield "one device, no space after the colon", [["eth0"], RECV, SEND, "\n", "", d, "kernel"]
    yield "one device under another prefix", [["eth0"], RECV, SEND, "\n", " ", p, "plain"]
    yield "no devices", [[], RECV, SEND, "", "", d, "kernel"]
    yield "devices, without the last newline", [["lo", "eth0"], RECV, SEND, "", " ", d, "plain"]
    yield "devices with dots, digits and dashes", [["eth0.100", "br-1f", "wlp3s0"], RECV, SEND, "\n", "  ", d, "kernel"]
    yield "an empty line at the end", [["lo", "eth0"], RECV, SEND, "\n\n", " ", d, "kernel"]
    # other kernels have other columns, in another order
    yield "the columns of each side in reverse", [["lo", "eth0"], RECV[::-1], SEND[::-1], "\n", " ", d, "kernel"]
    yield "more columns to receive than to transmit", [["lo", "eth0"], RECV + ["extra", "more"], SEND, "\n", " ", d, "kernel"]
    yield "fewer columns to receive than to transmit", [["lo", "eth0"], RECV[:3], ["errs"] + SEND, "\n", " ", d, "kernel"]
    if thorough:
        for n in (4, 8):
            yield "%d devices" % n, [["if%d" % i for i in range(n)], RECV, SEND, "\n", " ", d, "kernel"]
        for k in range(8):
            yield "the columns rotated by %d" % k, [["lo"], RECV[k:] + RECV[:k], SEND[-k:] + SEND[:-k], "\n", " ", d, "kernel"]


def judge_result(rep, rule, subject, told, r, v, want, where=None, name=None):
    got = {}
    if v[0] != "dict":
        rep.undecided(rule, told, "the result %s" % show(v)[:80])
        return False
    for x in v[1:]:
        if not (isinstance(x, tuple) and len(x) in (2, 3)):
            rep.undecided(rule, told, "the result %s" % show(v)[:80])
            return False
        got[x[-2]] = x[-1]
    for k in got:
        if k not in want:
            rep.violation(rule, "%s:%s" % (subject, "label"), "%s: %s is reported as %s, which is not a figure of the source" % (told, show(got[k]), show(k)), where, path_text(r))
            return False
    for k, w in want.items():
        if k not in got:
            rep.violation(rule, "%s:%s" % (subject, "missing"), "%s: %s is not reported as %s" % (told, show(w), show(k)), where, path_text(r))
            return False
        c, why = compare(got[k], w, r.facts.log)
        if c == "differ":
            rep.violation(rule, name(k, got[k]) if name else "%s:value" % subject, "%s: %s is reported as %s instead of %s" % (told, show(k), show(got[k]), show(w)), where, path_text(r))
            return False
        if c != "equal":
            rep.undecided(rule, told, "%s: %s" % (show(k), why))
            return False
    return True


def where_of(ctx, I, fn):
    f = I.lookup_global(P_, fn)
    if f is not None and f[0] == "fn":
        F = I.fns.get(f[1])
        n = getattr(F, "node", None)
        if n is not None:
            return "%s:%s" % (getattr(F.module, "path", None) or "txstatsd/process.py", getattr(n, "lineno", "?"))
    return "txstatsd/process.py"


def given(I):
    """The facts so far are those of the scenario; what is learned later narrows a path."""
    I.event("mark", "given", [const(len(I.st.facts.log))])


def narrowed(r):
    k = [e for e in r.events if e.kind == "mark" and e.what == "given"]
    return bool(r.facts.log[k[-1].args[0][1] if k else 0:])


class Narrow(object):
    """Reports a violation on a path that the scenario alone leads to, and else leaves the case undecided."""
    def __init__(self, rep, told):
        self.rep, self.told, self.r = rep, told, None

    def violation(self, rule, subject, msg, where=None, path=None):
        if narrowed(self.r):
            self.rep.undecided(rule, self.told, "%s, under %s" % (msg, self.r.facts_text()[-3:]))
        else:
            self.rep.violation(rule, subject, msg, where, path)

    def undecided(self, *a):
        self.rep.undecided(*a)


def walk(ctx, I, rep, rule, told, sc, want, where, check=None):
    w = Narrow(rep, told)
    ok = None
    for r in ctx.explore(I, sc):
        w.r = r
        if r.kind == "undecided":
            rep.undecided(rule, told, r.value)
            return
        if r.kind == "raise":
            w.violation(rule, "raise", "%s: raises %s" % (told, r.value), getattr(r.value, "where", None) or where, path_text(r))
            return
        bad = check(r) if check else None
        if bad:
            w.violation(rule, "source", "%s: %s" % (told, bad), where, path_text(r))
            return
        ok = judge_result(w, rule, "figures", told, r, r.value, want, where) and ok is not False
    if ok:
        rep.ok(rule, told)


def parser_case(ctx, rep, kind, told, f, prefix):
    I = ctx.interp(alphabet=f.syms)
    fn = PARSERS[kind]

    def sc(I):
        g = ctx.need_function(I, P_, fn)
        kw = {} if is_const(prefix) else {"prefix": prefix}
        return I.snap(I.call(g, [f.content()], kw, None))
    told = "%s, %s" % (fn, told)
    walk(ctx, I, rep, fn, told, sc, f.want, where_of(ctx, I, fn))


# ------------------------------------------------------------------ psutil
def named(I, label, fields, plain=False):
    t = ("tuple",) + tuple(sym("%s.%s" % (label, f), "num") for f in fields)
    if not plain:
        I.cfg.fields[t] = tuple(fields)
    return t


# the fields of psutil's tuples, in the releases that requirements.txt admits
SHAPES = {"memory_info": [["rss", "vms"]], "cpu_times": [["user", "system"]], "io_counters": [["read_count", "write_count", "read_bytes", "write_bytes"]]}
SYSTEM = [["user", "system", "idle"], ["user", "nice", "system", "idle", "iowait", "irq", "softirq", "steal", "guest", "guest_nice"]]


def process_report(ctx, I, methods, absent=()):
    """A ProcessReport of a process that offers these methods."""
    pr = sym("cfg:process", "obj")
    for m, v in methods.items():
        I.cfg.opaque_methods[m] = lambda I, base, a, k, n, v=v: v(I) if base == pr else None
    for m in absent:
        I.cfg.absent_attrs.add(m)
    c = ctx.need_class(I, P_, "ProcessReport")
    return I.call(c, [], {"process": pr}, None)


def offered(I, pr, m):
    I.assume(("hasattr", pr, const(m)), True)
    I.assume(("isnone", ("attr", pr, m)), False)
    at = I.truth_atom(("attr", pr, m))
    if not is_const(at):
        I.assume(at, True)


def report_case(ctx, rep, method, told, methods, absent, want, prefix=None, none=()):
    """want(I, prefix) -> {suffix: term}."""
    I = ctx.interp()
    pr = sym("cfg:process", "obj")

    def sc(I):
        I.assume(("isnone", pr), False)
        o = process_report(ctx, I, methods, absent)
        for m in methods:
            offered(I, pr, m)
        for m in none:
            I.assume(("hasattr", pr, const(m)), True)
            I.assume(("isnone", ("attr", pr, m)), True)
        for m in absent:
            I.assume(("hasattr", pr, const(m)), False)
        given(I)
        f = I.getattr(o, method, None)
        return I.snap(I.call(f, [], {"prefix": prefix} if prefix is not None else {}, None))
    I.cfg.consts.update(SOCKETS)
    told = "%s, %s" % (method, told)
    walk(ctx, I, rep, method, told, sc, want, "txstatsd/process.py")


def S(label, f):
    return sym("%s.%s" % (label, f), "num")


def lab(prefix, rows):
    return {cat((prefix, const("." + k))): v for k, v in rows.items()}


def memory_case(ctx, rep, fields, threads, prefix):
    methods = {"memory_info": lambda I: named(I, "memory", fields), "cpu_percent": lambda I: S("process", "cpu_percent"),
               "memory_percent": lambda I: S("process", "memory_percent")}
    rows = {"cpu.percent": S("process", "cpu_percent"), "memory.percent": S("process", "memory_percent"), "memory.vsize": S("memory", "vms"), "memory.rss": S("memory", "rss")}
    if threads == "yes":
        methods["num_threads"] = lambda I: S("process", "num_threads")
        rows["threads"] = S("process", "num_threads")
    report_case(ctx, rep, "get_memory_and_cpu", "memory of %d fields, threads %s%s" % (len(fields), threads, " under another prefix" if prefix else ""),
                methods, ["num_threads"] if threads == "no" else [], lab(prefix or const("proc"), rows), prefix, ["num_threads"] if threads == "None" else [])


def cpu_case(ctx, rep, fields, prefix):
    report_case(ctx, rep, "get_cpu_counters", "times of %d fields%s" % (len(fields), " under another prefix" if prefix else ""), {"cpu_times": lambda I: named(I, "times", fields)}, [],
                lab(prefix or const("proc"), {"cpu.user": S("times", "user"), "cpu.system": S("times", "system")}), prefix)


def io_case(ctx, rep, fields, there, prefix):
    rows = {"%s.%s" % (x, y): S("io", "%s_%s" % (x, y)) for x in ("read", "write") for y in ("count", "bytes")} if there == "yes" else {}
    report_case(ctx, rep, "get_io_counters", "counters of %d fields, offered: %s%s" % (len(fields), there, " under another prefix" if prefix else ""),
                {"io_counters": lambda I: named(I, "io", fields)} if there == "yes" else {}, ["io_counters"] if there == "no" else [],
                lab(prefix or const("proc.io"), rows), prefix, ["io_counters"] if there == "None" else [])


STREAM, DGRAM = 1, 2
SOCKETS = {"socket.SOCK_STREAM": const(STREAM), "socket.SOCK_DGRAM": const(DGRAM), "socket.AF_INET": const(2), "socket.AF_INET6": const(10)}


def net_case(ctx, rep, conns, there, prefix):
    """conns: (type, status)."""
    I = None
    def build(I):
        out = []
        for n, (kind, status) in enumerate(conns):
            t = ("tuple", const(n + 3), const(2), const(kind), ("tuple", sym("here%d" % n, "str"), sym("hport%d" % n, "int")),
                 ("tuple", sym("there%d" % n, "str"), sym("tport%d" % n, "int")), const(status))
            I.cfg.fields[t] = ("fd", "family", "type", "laddr", "raddr", "status")
            out.append(t)
        return I.new_list(out)
    rows = {}
    if there == "yes":
        for kind, status in conns:
            if kind == STREAM:
                rows["status." + status.lower()] = rows.get("status." + status.lower(), 0) + 1
    report_case(ctx, rep, "get_net_stats", "connections %s, offered: %s" % (conns, there), {"connections": build} if there == "yes" else {}, ["connections"] if there == "no" else [],
                lab(prefix or const("proc.net"), {k: const(v) for k, v in rows.items()}), prefix, ["connections"] if there == "None" else [])


def function_case(ctx, rep, fn, told, ext, args, kw, want, called=False, check=None, alphabet=None):
    I = ctx.interp(alphabet=alphabet or {})

    def sc(I):
        ext(I)
        given(I)
        f = ctx.need_function(I, P_, fn)
        v = I.call(f, args, kw, None)
        if called:
            I.event("mark", "called")
            v = I.call(v, [], {}, None)
        return I.snap(v)
    told = "%s, %s" % (fn, told)
    walk(ctx, I, rep, fn, told, sc, want, "txstatsd/process.py", check)


def system_case(ctx, rep, cpus, fields, prefix):
    """cpus: None for the sum, or the number of processors."""
    def ext(I):
        def times(I, a, k, n):
            per = k.get("percpu", a[0] if a else FALSE)
            if not is_const(per):
                return None
            I.event("call", ("x", "psutil.cpu_times"), a, k, node=n, ret=NONE)
            if per[1]:
                return I.new_list([named(I, "cpu%d" % i, fields) for i in range(cpus or 2)])
            return named(I, "cpu", fields)
        I.cfg.ext["psutil.cpu_times"] = times
    kw = {} if cpus is None else {"percpu": TRUE}
    if prefix is not None:
        kw["prefix"] = prefix
    rows = {}
    if cpus is None:
        rows = {"cpu." + f: S("cpu", f) for f in fields}
    else:
        rows = {"cpu.%03d.%s" % (i, f): S("cpu%d" % i, f) for i in range(cpus) for f in fields}
    function_case(ctx, rep, "report_system_stats", "%s, %d fields%s" % ("all processors" if cpus is None else "%d processors" % cpus, len(fields), " under another prefix" if prefix else ""),
                  ext, [], kw, lab(prefix or const("sys"), rows))


def pool_case(ctx, rep, counts, prefix):
    pool = sym("cfg:pool", "obj")
    def ext(I):
        for a, n in zip(("working", "waiters", "threads"), counts):
            I.cfg.opaque_attrs[a] = lambda I, base, nd, n=n: ("list",) + tuple(const(i) for i in range(n)) if base == pool else None
        I.cfg.opaque_methods["qsize"] = lambda I, base, a, k, n: sym("cfg:queued", "int") if base == ("attr", pool, "q") else None
    rows = {"working": const(counts[0]), "waiters": const(counts[1]), "threads": const(counts[2]), "queue": sym("cfg:queued", "int")}
    function_case(ctx, rep, "report_threadpool_stats", "%s%s" % (counts, " under another prefix" if prefix else ""), ext, [pool], {"prefix": prefix} if prefix is not None else {},
                  lab(prefix or const("threadpool"), rows), True)


def reactor_case(ctx, rep, counts, prefix):
    re = sym("cfg:reactor", "obj")
    def ext(I):
        for m, n in zip(("getReaders", "getWriters"), counts):
            I.cfg.opaque_methods[m] = lambda I, base, a, k, nd, n=n: I.new_list([const(i) for i in range(n)]) if base == re else None
    function_case(ctx, rep, "report_reactor_stats", "%s%s" % (counts, " under another prefix" if prefix else ""), ext, [re], {"prefix": prefix} if prefix is not None else {},
                  lab(prefix or const("reactor"), {"readers": const(counts[0]), "writers": const(counts[1])}), True)


# ------------------------------------------------------------------ the standard reports
def standard_case(ctx, rep, which):
    """The reports that the service schedules under a name, called twice while their sources change."""
    I = ctx.interp()
    I.cfg.consts.update(SOCKETS)
    now = [0]
    pr = sym("cfg:process", "obj")
    d = {"meminfo": const("sys.mem"), "loadavg": const("sys.loadavg"), "netdev": const("sys.net")}
    files, want = {}, {}
    for n in (0, 1):
        files[n] = {"/proc/meminfo": meminfo([(k, "kB", 8) for k in REPORTED], "\n", d["meminfo"]), "/proc/loadavg": loadavg(" ", "\n", d["loadavg"]),
                    "/proc/net/dev": netdev(["lo", "eth0"], RECV, SEND, "\n", " ", d["netdev"], "kernel")}
        for f in files[n].values():
            ren = {t: sym("reading%d:%s" % (n, t[1]), "str") for t in f.syms}
            f.parts = [ren.get(t, t) for t in f.parts]
            f.want = {k: subst_all(v, ren) for k, v in f.want.items()}
            I.cfg.alphabet.update({ren[t]: a for t, a in f.syms.items()})

    def S2(label, f):
        return S("reading%d.%s" % (now[0], label), f)

    def tup(label, fields):
        t = ("tuple",) + tuple(S2(label, f) for f in fields)
        I.cfg.fields[t] = tuple(fields)
        return t

    def pair(label, f):
        return ("sub", S("reading1.%s" % label, f), S("reading0.%s" % label, f))
    if which == "SYSTEM":
        w = dict(files[1]["/proc/meminfo"].want)
        w.update(files[1]["/proc/loadavg"].want)
        for k, v in files[1]["/proc/net/dev"].want.items():
            w[k] = ("sub", v, files[0]["/proc/net/dev"].want[k])
        w.update({const("sys.cpu." + f): pair("cpu", f) for f in SYSTEM[1]})
    elif which == "PROCESS":
        w = {const("proc." + k): S("reading1." + v.split(".")[0], v.split(".")[1]) for k, v in {"cpu.percent": "process.cpu_percent", "memory.percent": "process.memory_percent",
             "memory.vsize": "memory.vms", "memory.rss": "memory.rss", "threads": "process.num_threads"}.items()}
    elif which == "COUNTER":
        w = {const("proc.cpu.user"): pair("times", "user"), const("proc.cpu.system"): pair("times", "system")}
    elif which == "IO":
        w = {const("proc.io.%s.%s" % (x, y)): pair("io", "%s_%s" % (x, y)) for x in ("read", "write") for y in ("count", "bytes")}
    else:
        w = {const("proc.net.status.established"): const(1)}

    def model(I):
        def open_(I, a, k, n):
            if not (a and is_const(a[0])):
                return None
            if a[0][1] not in files[0]:
                I.raise_("IOError", n, "no file %s" % show(a[0]))
            return sym("file:" + a[0][1], "obj")
        I.cfg.ext["builtin.open"] = open_
        text = lambda base: files[now[0]][base[1][5:]].content() if base[0] == "sym" and str(base[1]).startswith("file:") else None
        I.cfg.opaque_methods["read"] = lambda I, base, a, k, n: text(base) if not a else None
        def line(I, base, a, k, n):
            t = text(base)
            return I.bm.str_method(t, "partition", [const("\n")], {}, n)[1] if t is not None and not a else None
        I.cfg.opaque_methods["readline"] = line
        I.cfg.opaque_methods["readlines"] = lambda I, base, a, k, n: I.bm.str_method(text(base), "splitlines", [], {}, n) if text(base) is not None and not a else None
        I.cfg.ext["psutil.cpu_times"] = lambda I, a, k, n: tup("cpu", SYSTEM[1]) if k.get("percpu", a[0] if a else FALSE) == FALSE else None
        I.cfg.ext["os.getpid"] = lambda I, a, k, n: const(4711)

        def process(I, a, k, n):
            if a and a[0] != const(4711):
                I.event("mark", "another process", list(a), node=n)
            return pr
        I.cfg.ext["psutil.Process"] = process
        for m, f in {"memory_info": lambda: tup("memory", ["rss", "vms"]), "cpu_percent": lambda: S2("process", "cpu_percent"), "memory_percent": lambda: S2("process", "memory_percent"),
                     "num_threads": lambda: S2("process", "num_threads"), "cpu_times": lambda: tup("times", ["user", "system"]),
                     "io_counters": lambda: tup("io", SHAPES["io_counters"][0]),
                     "connections": lambda: None}.items():
            I.cfg.opaque_methods[m] = lambda I, base, a, k, n, f=f: f() if base == pr else None
        def conns(I, base, a, k, n):
            if base != pr:
                return None
            t = ("tuple", const(3), const(2), const(STREAM), ("tuple",), ("tuple",), const("ESTABLISHED"))
            I.cfg.fields[t] = ("fd", "family", "type", "laddr", "raddr", "status")
            return I.new_list([t])
        I.cfg.opaque_methods["connections"] = conns

    def sc(I):
        model(I)
        I.assume(("isnone", pr), False)
        for m in ("memory_info", "cpu_percent", "memory_percent", "num_threads", "cpu_times", "io_counters", "connections"):
            offered(I, pr, m)
        given(I)
        v = I.lookup_global(P_, which + "_STATS")
        fs = listed(I.st.heap, v) if v is not None else None
        if fs is None:
            raise Undecided("the reports of %s" % which)
        out = I.new_dict()
        for n in (0, 1):
            now[0] = n
            for f in fs:
                x = I.call(f, [], {}, None)
                if n:
                    I.call(I.getattr(out, "update", None), [x], {}, None)
        return I.snap(out)
    told = "the standard report %s" % which.lower()
    def check(r):
        bad = [e for e in r.events if e.kind == "mark" and e.what == "another process"]
        return bad and "the figures are those of the process %s" % show(bad[0].args[0])
    walk(ctx, I, rep, "standard", told, sc, w, "txstatsd/process.py", check)


def subst_all(t, ren):
    if t in ren:
        return ren[t]
    if isinstance(t, tuple):
        return tuple(subst_all(x, ren) for x in t)
    return t


def run(ctx, rep):
    jobs = []
    for told, args in meminfos(ctx.thorough):
        jobs.append((parser_case, ("meminfo", told, meminfo(*args), args[-1])))
    for seps, end in ((" ", "\n"), (" ", "")):
        for prefix in (const("sys.loadavg"), sym("cfg:prefix", "str")):
            jobs.append((parser_case, ("loadavg", "ending %r, prefix %s" % (end, show(prefix)), loadavg(seps, end, prefix), prefix)))
    for told, args in netdevs(ctx.thorough):
        jobs.append((parser_case, ("netdev", told, netdev(*args), args[5])))
    px = sym("cfg:prefix", "str")
    for fields in SHAPES["memory_info"]:
        for threads in ("yes", "no", "None"):
            jobs.append((memory_case, (fields, threads, None)))
    jobs.append((memory_case, (SHAPES["memory_info"][0], "yes", px)))
    for fields in SHAPES["cpu_times"]:
        jobs.append((cpu_case, (fields, None)))
    jobs.append((cpu_case, (SHAPES["cpu_times"][0], px)))
    for fields in SHAPES["io_counters"]:
        for there in ("yes", "no", "None"):
            jobs.append((io_case, (fields, there, None)))
    jobs.append((io_case, (SHAPES["io_counters"][0], "yes", px)))
    kinds = [(STREAM, "ESTABLISHED"), (STREAM, "CLOSE_WAIT"), (DGRAM, "NONE"), (STREAM, "established")]
    for n in range(4 if not ctx.thorough else 5):
        for conns in itertools.product(kinds, repeat=n):
            jobs.append((net_case, (list(conns), "yes", None)))
    for there in ("no", "None"):
        jobs.append((net_case, ([], there, None)))
    jobs.append((net_case, (kinds, "yes", px)))
    for fields in SYSTEM:
        for cpus in (None, 1, 2, 3, 12):
            for prefix in (None, px):
                jobs.append((system_case, (cpus, fields, prefix)))
    for counts in ((0, 0, 0), (1, 2, 3), (3, 1, 2), (2, 3, 1)):
        for prefix in (None, px):
            jobs.append((pool_case, (counts, prefix)))
    for counts in ((0, 0), (1, 2), (2, 1), (3, 0)):
        for prefix in (None, px):
            jobs.append((reactor_case, (counts, prefix)))
    jobs += [(standard_case, (w,)) for w in ("SYSTEM", "PROCESS", "COUNTER", "IO", "NET")]
    ctx.pmap(lambda js, rp: [f(ctx, rp, *a) for f, a in js], [jobs[i:i + 6] for i in range(0, len(jobs), 6)])
