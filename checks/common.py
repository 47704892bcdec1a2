"""What the checks share: the program, scenarios, reports."""
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback

from interp import *
import terms as T
from terms import *
import rinterp
from rinterp import Point, NoValue, Unknown, compare
from scen import *
from program import AnalysisBroken

PROC = "txstatsd.server.processor"
CONF = "txstatsd.server.configurableprocessor"
LOGP = "txstatsd.server.loggingprocessor"


class Report(object):
    """Obligations of a run: discharged, violated or left undecided."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.violations = {}
        self.notes = []
        self.count = {}
        self.ok_count = {}
        self.functions = set()
        self.paths = 0
        self.samples = []
        self.facts = {}
        self.listed = {k for p, k in load_known(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")) if p == pid}

    def obligation(self, rule, n=1):
        self.count[rule] = self.count.get(rule, 0) + n

    def ok(self, rule, sample=None, n=1):
        self.obligation(rule, n)
        self.ok_count[rule] = self.ok_count.get(rule, 0) + n
        if sample and len(self.samples) < 40:
            self.samples.append("%s: %s" % (rule, sample))

    def violation(self, rule, subject, msg, where=None, path=None):
        """subject: the construct, without line numbers; where: file:line."""
        self.obligation(rule)
        key = "%s:%s" % (rule, subject)
        if key not in self.violations:
            self.violations[key] = {"rule": rule, "subject": subject, "message": msg,
                                    "where": str(where) if where else None,
                                    "path": [str(x)[:600] for x in (path or [])][:60]}

    def undecided(self, rule, subject, why):
        self.obligation(rule)
        n = "%s: %s: %s" % (rule, subject, str(why)[:300])
        if n not in self.notes:
            self.notes.append(n)

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def decide(self, rule, subject, verdict, msg="", where=None, path=None):
        """verdict: True, False or None."""
        if verdict is True:
            self.ok(rule, subject)
        elif verdict is False:
            self.violation(rule, subject, msg, where, path)
        else:
            self.undecided(rule, subject, msg)

    def merge(self, d):
        for k, v in d["violations"].items():
            self.violations.setdefault(k, v)
        for n in d["notes"]:
            self.note(n)
        for a in ("count", "ok_count"):
            for k, v in d[a].items():
                getattr(self, a)[k] = getattr(self, a).get(k, 0) + v
        self.functions |= d["functions"]
        self.paths += d["paths"]
        self.samples = (self.samples + d["samples"])[:40]
        for k, v in d["facts"].items():
            if isinstance(v, int) and isinstance(self.facts.get(k), int):
                self.facts[k] += v
            else:
                self.facts.setdefault(k, v)

    def anchor(self, cond, what):
        if not cond:
            raise AnalysisBroken("anchor missing: %s" % what)

    def finish(self, here, wall, assumptions, explanation):
        known = load_known(os.path.join(here, "known_findings.txt"))
        fresh, listed = {}, {}
        for k, v in self.violations.items():
            if (self.pid, k) in known:
                listed[k] = known[(self.pid, k)]
            else:
                fresh[k] = v
        obl = sum(self.count.values())
        dis = sum(self.ok_count.values())
        cov = {
            "explanation": " ".join(explanation.split()),
            "obligations": obl,
            "discharged": dis,
            "undecided": len(self.notes),
            "rules": {r: {"obligations": n, "discharged": self.ok_count.get(r, 0)} for r, n in sorted(self.count.items())},
            "functions_analysed": len(self.functions),
            "functions": sorted("%s:%s" % (f, n) for f, n, _ in self.functions)[:200],
            "abstract_paths": self.paths,
            "samples": self.samples,
            "undecided_notes": self.notes[:80],
        }
        cov.update(self.facts)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
        with open(os.path.join(here, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
            f.write("\n")
        for k, text in sorted(listed.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d abstract paths, %.1f s" % (
            self.pid, obl, dis, len(self.notes), len(fresh), len(self.functions), self.paths, wall))
        if os.environ.get("VERIF_VERBOSE"):
            for n in self.notes:
                print("  undecided", n)
        if not fresh:
            return 0
        d = os.path.join(here, "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, self.pid + ".json")
        with open(rp, "w") as f:
            json.dump({"property": self.pid, "violations": list(fresh.values())}, f, indent=1, default=str)
        for k, v in sorted(fresh.items())[:20]:
            print("  %s at %s: %s" % (k, v["where"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1


def load_known(path):
    out = {}
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if line.startswith("known:"):
            parts = line[6:].split()
            d = dict(p.split("=", 1) for p in parts[:2])
            out[(d["property"], d["key"])] = " ".join(parts[2:])
    return out


class Ctx(object):
    def __init__(self, tier, seed, rep, deadline=None):
        self.tier, self.seed, self.rep = tier, seed, rep
        self.thorough = tier == "thorough"
        self.P = Program()
        self._all = []
        self.kids = []
        self.deadline = deadline or time.time() + 600
        set_deadline(self.deadline)

    def interp(self, **kw):
        kw.setdefault("max_time", 240 if self.thorough else 100)
        cfg = Config(**kw)
        I = Interp(self.P, cfg)
        I.load_all()
        I.explore(lambda I: None)
        self._all.append(I)
        return I

    def functions(self):
        out = set()
        for I in self._all:
            out |= {a for a in I.analysed}
        return out

    def explore(self, I, scenario, max_paths=None):
        rs = I.explore(scenario, max_paths)
        self.rep.paths += len(rs)
        return rs

    def pmap(self, fn, items, workers=8):
        """fn(item, report) for each item, in processes of their own; soon after a violation, or when the time
        is used up, the rest is left."""
        items = list(items)
        if not items:
            return
        workers = max(1, min(workers, len(items)))
        sys.stdout.flush()
        # the numbers of the items wait in a pipe; a worker that is done takes the next
        qr, qw = os.pipe()
        assert 4 * len(items) < 60000
        os.write(qw, b"".join(b"%04d" % i for i in range(len(items))))
        os.close(qw)
        kids = {}
        for w in range(workers):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(rd)
                    resource.setrlimit(resource.RLIMIT_AS, (3600 << 20, resource.RLIM_INFINITY))
                    self.work(fn, items, qr, wr)
                    code = 0
                finally:
                    os._exit(code)
            os.close(wr)
            kids[rd] = [pid, b""]
            self.kids.append(pid)
        os.close(qr)
        bad, done = None, 0
        deadline = self.deadline + 15
        found = set(self.rep.violations)
        while kids:
            left = deadline - time.time()
            if left <= 0:
                for rd, (pid, _) in kids.items():
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    self.kids.remove(pid)
                    os.close(rd)
                break
            for rd in select.select(list(kids), [], [], min(left, 5))[0]:
                data = os.read(rd, 1 << 20)
                k = kids[rd]
                if not data:
                    code = os.waitpid(k[0], 0)[1]
                    self.kids.remove(k[0])
                    if k[1] or code:
                        bad = bad or "a worker ended early"
                    os.close(rd)
                    del kids[rd]
                    continue
                k[1] += data
                while len(k[1]) >= 8:
                    n = int.from_bytes(k[1][:8], "big")
                    if len(k[1]) < 8 + n:
                        break
                    err, d = pickle.loads(k[1][8:8 + n])
                    k[1] = k[1][8 + n:]
                    done += 1
                    if err:
                        bad = bad or err
                    self.rep.merge(d)
                    if set(self.rep.violations) - found - self.rep.listed:
                        deadline = min(deadline, time.time() + 20)
        if bad:
            raise AnalysisBroken(bad)
        if done < len(items):
            self.rep.undecided("time", "%d of %d parts" % (len(items) - done, len(items)),
                               "left out after the violation found" if set(self.rep.violations) - self.rep.listed else "not analysed in the time allowed")

    def work(self, fn, items, qr, wr):
        while True:
            i = os.read(qr, 4)
            if not i:
                return
            sub = Report(self.rep.pid, self.rep.tier, self.rep.seed)
            self.rep = sub
            self._all = []
            err = None
            t0 = time.time()
            try:
                fn(items[int(i)], sub)
            except AnalysisBroken as e:
                err = str(e)
            except MemoryError:
                sub.undecided("memory", str(items[int(i)])[:120], "not analysed in the memory allowed")
            except OutOfTime:
                sub.undecided("time", str(items[int(i)])[:120], "not analysed in the time allowed")
            except Exception:
                # a construct the analysis stumbles over: the item is not decided, the others are
                sub.undecided("internal", str(items[int(i)])[:120], traceback.format_exc().strip().splitlines()[-1])
                print("INTERNAL %s\n%s" % (str(items[int(i)])[:200], traceback.format_exc()), file=sys.stderr)
            if os.environ.get("VERIF_TIMES"):
                print("%6.1f s %s" % (time.time() - t0, str(items[int(i)])[:150]), file=sys.stderr)
            sub.functions |= self.functions()
            data = pickle.dumps((err, sub.__dict__))
            data = len(data).to_bytes(8, "big") + data
            while data:
                data = data[os.write(wr, data):]

    def need_class(self, I, module, name):
        try:
            I.module(module)
        except Exception:
            raise AnalysisBroken("module %s is gone" % module)
        c = I.lookup_global(module, name)
        if c is None or c[0] not in ("cls", "x"):
            raise AnalysisBroken("class %s.%s is gone" % (module, name))
        return c

    def need_function(self, I, module, name):
        try:
            I.module(module)
        except Exception:
            raise AnalysisBroken("module %s is gone" % module)
        f = I.lookup_global(module, name)
        if f is None:
            raise AnalysisBroken("%s.%s is gone" % (module, name))
        return f


# ------------------------------------------------------------------ processors
KINDS = ("compliant", "configurable", "logging")


def bundled_plugins(I):
    out = []
    for m, g in (("twisted.plugins.sli_plugin", "sli_metric_factory"),
                 ("twisted.plugins.distinct_plugin", "distinct_metric_factory")):
        try:
            v = I.lookup_global(m, g)
        except Exception:
            v = None
        if v is not None and v[0] == "obj":
            out.append(v)
    return out


def make_processor(ctx, kind, prefix="cfg", plugins=True, logger=None, **extra):
    """A scenario step that constructs a processor of a kind.

    prefix: 'cfg' (an arbitrary non-empty one), 'none' (empty), for the configurable kinds.
    """
    def make(I):
        kw = {}
        if plugins:
            kw["plugins"] = I.new_list(plugins(I) if callable(plugins) else bundled_plugins(I))
        args = []
        if kind == "compliant":
            c = ctx.need_class(I, PROC, "MessageProcessor")
        else:
            if kind == "configurable":
                c = ctx.need_class(I, CONF, "ConfigurableMessageProcessor")
            else:
                c = ctx.need_class(I, LOGP, "LoggingMessageProcessor")
                args = [sym("cfg:logger", "obj")]
            if prefix == "cfg":
                p = sym("cfg:message_prefix", "str")
                I.assume(("nonempty", p), True)
                kw["message_prefix"] = p
            elif prefix == "both":
                for n, q in (("message_prefix", "cfg:message_prefix"), ("internal_metrics_prefix", "cfg:internal_prefix")):
                    p = sym(q, "str")
                    I.assume(("nonempty", p), True)
                    kw[n] = p
        kw.update(extra)
        try:
            return I.call(c, args, kw, None)
        except PyRaise as e:
            if kind == "logging":
                raise Infeasible()      # a logger without a callable info is refused
            raise
    return make


CUSTOM_TYPE = "zz"


def custom_plugin(I):
    """A plugin of somebody else's: its metrics report the interval and the timestamp they are given."""
    pl = sym("cfg:customplugin", "obj")
    metric = sym("cfg:custommetric", "obj")
    I.cfg.opaque_methods["build_metric"] = lambda I, base, a, k, n: metric if base == pl else None
    I.cfg.opaque_methods["flush"] = lambda I, base, a, k, n: I.new_list([("tuple", const("custom.seen"), a[0], a[1])]) if base == metric and len(a) == 2 else None
    return [pl]


MESSAGE = sym("message", "str")


def process_op(I, o):
    return I.call(I.getattr(o, "process", None), [MESSAGE], {}, None)


def drain(I, g, on=None):
    def body(v):
        I.event("yield", "yield", [v])
        if on is not None:
            on(v)
    I.iterate(g, body, None)


INTERVAL = sym("interval", "int")
PERCENT = sym("percent", "num")


def flush_op(I, o):
    I.assume(I.lt0(("neg", INTERVAL)), True)
    drain(I, I.call(I.getattr(o, "flush", None), [INTERVAL, PERCENT], {}, None))


def learner(ctx, I, make, drives=None):
    drives = drives or [(process_op, "process"), (flush_op, "flush")]
    L = Learner(I, make, drives)
    ctx.rep.paths += L.npaths
    return L


# ------------------------------------------------------------------ messages
def flat_events(events):
    return list(all_events(events))


def is_log_call(e):
    return e.kind == "call" and isinstance(e.what, str) and e.what in (
        "twisted.python.log.msg", "twisted.python.log.err", "twisted.python.log.callWithLogger", "twisted.logger.info")


def callname(e):
    """The dotted name of what an event calls."""
    return e.what if isinstance(e.what, str) else show(e.what)


def mentions(e, t):
    return any(contains(a, t) for a in list(e.args) + list(e.kw.values()) if isinstance(a, tuple))


WS = [" ", "\t", "\n"]


def message_corpus(seed, thorough=False):
    """Messages of every shape the rules distinguish."""
    rng = random.Random(seed)
    names = ["a", "a.b-c_D9", "x y", "p/q", "  lead", "a  b//c", "t\ttab", "!", "", "a+b*c", "n/ /m", "a:b"[:1], "..", "_-."]
    vals = ["1", "0", "-3", "2.5", "-0.25", "1e3", "abc", "", " 4", "nan", "inf", "-inf", "1_0", "0x10", "error", "1:2",
            "+7", "1,5", "12345678901", "1e400"]
    types = ["c", "ms", "g", "m", "sli", "pd", "zz", "", "C", "counter", "gg", "distinct", "kv", "s", "k", "cc", "mm"]
    thirds = [None, "@0.5", "@1", "@0", "@.1", "@", "0.1", "@-1", "@abc", "@1.2.3", "2", "x", "", "@0.0", "@.", "@2", " 3",
              "@0.1 ", "@1e2", "5.5", "nan", "@10", "@00.50"]
    out = []
    seen = set()

    def add(m):
        if m not in seen:
            seen.add(m)
            out.append(m)
    for t in types:
        for v in vals:
            add("n:%s|%s" % (v, t))
        for th in thirds:
            if th is not None:
                add("n:5|%s|%s" % (t, th))
        for n in names:
            add("%s:7|%s" % (n, t))
        add("n:5|%s|@0.1|x" % t)
        add("n:5|%s|@0.1|x|y" % t)
        add("n:5|%s|" % t)
        add("n:5|%s|@0.2\n" % t)
        add(" n:5|%s " % t)
        add("n:5|%s\n" % t)
        add("n:error|%s|3" % t)
        add("n:abc|%s|3" % t)
        for v in ("error", "5", "abc", "nan", "", " error", "errors"):
            for th in ("abc", "", "@0.1", "nan", "@0", "1e3", " "):
                add("n:%s|%s|%s" % (v, t, th))
        add("n:5|%s|abc" % t)
        add("n:|%s|3" % t)
        add("n|5|%s" % t)
        add("n:5:6|%s" % t)
        add("n:5|%s|@0.1:1" % t)
        add("n:5,%s" % t)
        add("n::5|%s" % t)
        add(":5|%s" % t)
    for m in ["", ":", "|", "a", "a:", "a:b", "a|b", ":|", "a:|", "::", "||", "a:1|", "a:1||", "a:1|||", "a:1|c|", ":1|c", " ",
              "\n", "a b c", "|c:1", "1|c", "a:b:c|d", "c:c|c|c|c", "a|c:1", "a:1|c|@0.5|@0.5"]:
        add(m)
    if thorough:
        alphabet = "ab:|@.019 -/cmgslipd\t"
        for _ in range(3000):
            add("".join(rng.choice(alphabet) for _ in range(rng.randint(0, 12))))
        for _ in range(3000):
            m = "%s:%s|%s" % (rng.choice(names), rng.choice(vals), rng.choice(types))
            th = rng.choice(thirds)
            add(m if th is None else m + "|" + th)
    return out


import re as _re


def spec_normalise(name):
    name = _re.sub(r"\s+", "_", name, flags=_re.ASCII)
    name = _re.sub(r"/+", "-", name)
    return _re.sub(r"[^a-zA-Z_\-0-9.]", "", name)


def spec_number(s):
    try:
        v = float(s) if "_" not in s else None
    except ValueError:
        return None
    if v is None or v != v or v in (float("inf"), float("-inf")):
        return None
    return v


BUILTIN_TYPES = ("c", "ms", "g", "m")


def spec_classify(kind, m, plugin_types=("sli", "pd")):
    """What the server should make of a message: (status, type, key, fields, extra).

    status: 'bad', 'good' or 'either' (left open by the property).
    """
    if ":" not in m:
        return ("bad", "no ':'", None, None, None)
    m = m.encode("latin-1").strip().decode("latin-1")
    if ":" not in m:
        return ("bad", "no ':'", None, None, None)
    name, data = m.split(":", 1)
    if "|" not in data:
        return ("bad", "no '|'", None, None, None)
    fields = data.split("|")
    if len(fields) < 2 or len(fields) > 3:
        return ("bad", "%d fields" % len(fields), None, None, None)
    key = spec_normalise(name)
    t = fields[1]
    if t not in BUILTIN_TYPES and t not in plugin_types:
        return ("bad", "unknown type", t, key, fields)
    if t in BUILTIN_TYPES:
        v = spec_number(fields[0])
        if v is None:
            return ("bad", "value is not a finite number", t, key, fields)
        if t == "c" and kind == "compliant" and len(fields) == 3:
            th = fields[2]
            mm = _re.match(r"@(.*)\Z", th, _re.S)
            r = spec_number(mm.group(1)) if mm else None
            if r is None or not r > 0:
                return ("bad", "sample rate is not a positive number", t, key, fields)
            if not _re.match(r"^@[\d.]+$", th, _re.ASCII):
                return ("either", "unusual rate", t, key, fields)
            return ("good", v, t, key, fields, r)
        return ("good", v, t, key, fields, 1)
    if t == "sli":
        f0 = fields[0]
        if len(fields) == 3:
            try:
                float(fields[2])
            except ValueError:
                return ("bad", "size does not parse", t, key, fields)
        if f0 != "error":
            try:
                float(f0)
            except ValueError:
                return ("bad", "value does not parse", t, key, fields)
    return ("good", None, t, key, fields, 1)


class Matcher(object):
    """Which messages take which abstract path."""

    def __init__(self, seed, corpus):
        self.corpus = corpus
        self.seed = seed
        self.points = {}

    def base(self, m):
        p = self.points.get(m)
        if p is None:
            p = self.points[m] = Point(random.Random(self.seed), {MESSAGE: m})
        return p

    def split(self, facts):
        """Facts about the message alone, and the others."""
        own, other = [], []
        for at, v in facts:
            fv = rinterp.free(at)
            (own if fv <= {MESSAGE} and at[0] != "haskey" else other).append((at, v))
        return own, other

    def takes(self, m, facts):
        """True/False/None: whether message m can take a path with these facts (about m alone)."""
        p = self.base(m)
        opaque = False
        for at, v in facts:
            try:
                p.unknown_ops = set()
                r = p.ev(at)
                if p.unknown_ops:
                    opaque = True
                    continue
                if bool(r) != v:
                    return False
            except NoValue:
                return False
            except Unknown:
                opaque = True
        return None if opaque else True

    def messages(self, r):
        """(messages that definitely take the path, whether some fact has no interpretation)."""
        own, other = self.split(r.facts.log)
        out, opaque = [], False
        for m in self.corpus:
            x = self.takes(m, own)
            if x is None:
                opaque = True
            elif x:
                out.append(m)
        return out, opaque, other


# ------------------------------------------------------------------ effects of a path
AGGREGATES = ("counter_metrics", "timer_metrics", "gauge_metrics", "gauge_index", "meter_metrics", "plugin_metrics",
              "plugin_types")
RECEIVED = ("process_timings", "by_type")


class Effect(object):
    """The net effect of a path on one location."""
    __slots__ = ("what", "label", "key", "old", "new", "target", "where", "fn", "fresh", "inloop", "ops")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def __repr__(self):
        return "%s %s[%s]: %s -> %s" % (self.what, self.label, show(self.key) if self.key else "",
                                        show(self.old) if self.old else None, show(self.new) if self.new else None)


def start_mark(I):
    I.st.events = []
    I.event("mark", "start", extra={"ctr": I.ctr})


def effects(r):
    """Net effects on labelled or pre-existing state, in order of first write."""
    out = {}
    heap = r.state.heap
    ctr0 = 0
    for e in r.events:
        if e.kind == "mark" and e.what == "start":
            ctr0 = e.extra["ctr"]
            break

    def visit(events, inloop):
        for e in events:
            if e.kind == "loop":
                for p in e.extra.paths:
                    visit(p.events, True)
                continue
            if e.kind != "write" or (e.extra or {}).get("init"):
                continue
            x = e.extra
            t = x["target"]
            fresh = False
            if t[0] == "obj" and t[1] in heap:
                o = heap.peek(t[1])
                fresh = t[1] > ctr0 and not (o.extra or {}).get("mat")
            lab = x.get("label")
            if e.what == "attr":
                k = ("a", t, e.args[1])
                old, new, key = e.args[2], e.args[3], e.args[1]
            elif e.what in ("item", "listitem"):
                k = ("i", t, canon(e.args[1]))
                old, new, key = e.args[2], e.args[3], e.args[1]
            else:
                k = ("l", t, None)
                old, new, key = None, None, None
            f = out.get(k)
            if f is None:
                f = out[k] = Effect(what=e.what if k[0] == "l" else {"a": "attr", "i": "item"}[k[0]], label=lab, key=key, old=old,
                                    target=t, where=e.where, fn=e.fn, fresh=fresh, inloop=inloop, ops=[])
            f.new = new
            f.ops.append(e)
    visit(r.events, False)
    res = []
    for f in out.values():
        if f.what in ("attr", "item") and not f.inloop and f.old is not None and f.old == f.new:
            continue
        res.append(f)
    return res


def label_in(label, names, root="self"):
    """Whether a label belongs to one of the attributes of the root object."""
    if not label:
        return False
    for n in names:
        p = "%s.%s" % (root, n)
        if label == p or label.startswith(p + "[") or label.startswith(p + ".") or label.startswith(p + "("):
            return True
        if p + "[" in label:
            return True
    return False


def path_text(r, n=40):
    return r.facts_text()[:n] + [repr(e)[:300] for e in r.events if e.kind != "time"][:n]


class ProcessorSummary(object):
    """Every abstract path of processing an arbitrary message in an arbitrary reachable state."""

    def __init__(self, ctx, kind, prefix="cfg", hazards=None):
        self.ctx, self.kind = ctx, kind
        self.I = I = ctx.interp()
        self.make = make_processor(ctx, kind, prefix)
        invs = {}
        self.L = learner(ctx, I, self.make, [(process_op, "process")] if kind != "compliant" else None)
        self.paths = ctx.explore(I, self.scenario)

    def scenario(self, I):
        o = self.make(I)
        label_root(I, o)
        self.L.steady(I, o)
        start_mark(I)
        process_op(I, o)
        return o


def bad_line_logs(r):
    """How often the path logs something made from the message: (certain, possible more)."""
    n = 0
    more = False
    for e in r.events:
        if is_log_call(e) and mentions(e, MESSAGE):
            n += 1
        if e.kind == "loop":
            if any(is_log_call(x) and mentions(x, MESSAGE) for x in all_events([e])):
                more = True
    return n, more


# ------------------------------------------------------------------ points on paths
def on_path(r, p):
    """True/False/None: whether a point satisfies the condition of a path."""
    opaque = False
    for at, v in r.facts.log:
        try:
            p.unknown_ops = set()
            x = bool(p.ev(at))
            if p.unknown_ops:
                opaque = True
                continue
            if x != v:
                return False
        except NoValue:
            return False
        except Unknown:
            opaque = True
    return None if opaque else True


def pick(paths, env, seed=1):
    """(path, point) for the path an assignment takes, or None."""
    for r in paths:
        if r.kind == "undecided":
            continue
        p = Point(random.Random(seed), dict(env))
        p.approx = True
        if on_path(r, p) is True:
            return r, p
    return None


def calls(events, *suffixes):
    """Call events whose dotted name ends in one of the suffixes."""
    out = []
    for e in all_events(events):
        if e.kind == "call":
            n = callname(e)
            if any(n == s or n.endswith("." + s) for s in suffixes):
                out.append(e)
    return out


def value(p, t):
    """The value of a term at a point, or Unknown."""
    p.unknown_ops = set()
    v = p.ev(t)
    if p.unknown_ops:
        raise Unknown(str(p.unknown_ops))
    return v


def after_mark(events, name):
    """Events after a mark, up to the next mark."""
    out, on = [], False
    for e in events:
        if e.kind == "mark" and e.what != "scheduled":
            on = e.what == name
            continue
        if on:
            out.append(e)
    return out


def scheduled(e):
    """(function, arguments, keywords) a call event schedules in the reactor, or None."""
    if e.kind != "call":
        return None
    n = callname(e).rsplit(".", 1)[-1]
    if n == "callLater" and len(e.args) >= 2:
        return e.args[1], list(e.args[2:]), dict(e.kw)
    if n in ("callFromThread", "callWhenRunning", "deferLater", "callInThread") and e.args:
        i = 2 if n == "deferLater" else 0
        return (e.args[i], list(e.args[i + 1:]), dict(e.kw)) if len(e.args) > i else None
    return None


def settle(I, start, only=("callLater", "callFromThread", "callWhenRunning")):
    """Make the calls that were scheduled since event number start."""
    i = start
    n = 0
    while i < len(I.st.events) and n < 50:
        e = I.st.events[i]
        i += 1
        s = scheduled(e)
        if s and callname(e).rsplit(".", 1)[-1] in only:
            n += 1
            I.event("mark", "scheduled")
            I.call(s[0], s[1], s[2], None)
