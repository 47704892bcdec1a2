"""Path-partitioned abstract interpreter over the syntax trees.

Nothing of the repository is executed.  Values are terms (see terms.py), unknown
branch conditions split the abstract trace, loops over unknown collections are
analysed for one arbitrary iteration with every location the body changes
forgotten first (iterated until the set of changed locations is stable).
"""
import os
import re as _re
import sys
import time
from fractions import Fraction

sys.setrecursionlimit(20000)
DEBUG = bool(os.environ.get("VERIF_DEBUG"))

from terms import *
import terms as T
from facts import Facts, Infeasible
from program import Program, AnalysisBroken, Node, is_generator, local_names, iter_nodes


class Undecided(Exception):
    """The analysis met something it does not model; no verdict on this path."""


class PyRaise(Exception):
    def __init__(self, exc, node=None, reason="", msg=None, definite=True, where=None):
        self.exc = exc          # builtin name, dotted external name or ('cls', q)
        self.node = node
        self.reason = reason
        self.msg = msg
        self.definite = definite
        self.where = where

    def __str__(self):
        return "%s (%s)" % (excname(self.exc), self.reason)


class PyReturn(Exception):
    def __init__(self, value):
        self.value = value


class PyBreak(Exception):
    pass


class PyContinue(Exception):
    pass


class ConsumerAbort(Exception):
    """Leaves an inlined generator because its consumer stopped."""

    def __init__(self, tag, inner):
        self.tag = tag
        self.inner = inner


def excname(e):
    if isinstance(e, tuple):
        return e[1]
    return e


EXC_PARENT = {
    "Exception": "BaseException", "StandardError": "Exception", "ArithmeticError": "StandardError",
    "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "LookupError": "StandardError", "KeyError": "LookupError", "IndexError": "LookupError",
    "TypeError": "StandardError", "ValueError": "StandardError", "UnicodeError": "ValueError",
    "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError",
    "AttributeError": "StandardError", "NameError": "StandardError",
    "UnboundLocalError": "NameError", "RuntimeError": "StandardError",
    "NotImplementedError": "RuntimeError", "AssertionError": "StandardError",
    "ImportError": "StandardError", "EnvironmentError": "StandardError", "IOError": "EnvironmentError",
    "OSError": "EnvironmentError", "socket.error": "IOError", "socket.gaierror": "socket.error",
    "socket.herror": "socket.error", "socket.timeout": "socket.error",
    "StopIteration": "Exception", "GeneratorExit": "BaseException", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "getopt.error": "Exception", "getopt.GetoptError": "getopt.error",
    "Queue.Empty": "Exception", "Queue.Full": "Exception", "MemoryError": "StandardError",
    "EOFError": "StandardError", "FloatingPointError": "ArithmeticError",
    "twisted.python.usage.UsageError": "Exception", "twisted.internet.error.MessageLengthError": "Exception",
    "twisted.internet.error.ConnectionRefusedError": "Exception",
    "re.error": "Exception",
}
EXC_ALIAS = {"getopt.GetoptError": "getopt.error", "socket.SocketType": "socket.error"}


DEADLINE = []


class OutOfTime(BaseException):
    """The time the check may take is used up."""


def set_deadline(t):
    DEADLINE[:] = [t]


class Obj(object):
    __slots__ = ("kind", "cls", "attrs", "content", "entries", "pieces", "open", "ver", "present",
                 "absent", "label", "proto", "extra", "keyty", "mat")

    def __init__(self, kind, cls=None):
        self.kind = kind
        self.cls = cls
        self.attrs = {}
        self.content = None
        self.entries = {}
        self.pieces = ()
        self.open = False
        self.ver = 0
        self.present = set()
        self.absent = set()
        self.label = None
        self.proto = None
        self.extra = None
        self.keyty = "str"
        self.mat = {}

    def clone(self):
        o = Obj.__new__(Obj)
        o.kind = self.kind
        o.cls = self.cls
        o.attrs = self.attrs.copy()
        o.content = self.content
        o.entries = self.entries.copy()
        o.pieces = self.pieces
        o.open = self.open
        o.ver = self.ver
        o.present = self.present.copy()
        o.absent = self.absent.copy()
        o.label = self.label
        o.proto = self.proto
        o.extra = self.extra
        o.keyty = self.keyty
        o.mat = self.mat.copy()
        return o


class Ev(object):
    """An effect on a path."""
    __slots__ = ("kind", "what", "args", "kw", "where", "fn", "extra", "ret")

    def __init__(self, kind, what, args=(), kw=None, where=None, fn=None, extra=None, ret=None):
        self.kind, self.what, self.args, self.kw = kind, what, args, kw or {}
        self.where, self.fn, self.extra, self.ret = where, fn, extra, ret

    def __repr__(self):
        s = "%s %s(%s)" % (self.kind, self.what if isinstance(self.what, str) else show(self.what),
                           ", ".join([show(a) for a in self.args] + ["%s=%s" % (k, show(v)) for k, v in self.kw.items()]))
        return s + (" @%s" % (self.where,) if self.where else "")


class Heap(dict):
    """Objects by id; a copy shares them, and either side copies one when it is next fetched."""
    __slots__ = ("own",)

    def __init__(self, src=()):
        dict.__init__(self, src)
        self.own = set()

    def share(self):
        self.own = set()
        return Heap(self)

    def __getitem__(self, k):
        o = dict.__getitem__(self, k)
        if k not in self.own:
            o = o.clone()
            dict.__setitem__(self, k, o)
            self.own.add(k)
        return o

    def __setitem__(self, k, o):
        self.own.add(k)
        dict.__setitem__(self, k, o)

    def get(self, k, d=None):
        return self[k] if k in self else d

    peek = dict.__getitem__


class State(object):
    def __init__(self):
        self.frames = {}
        self.heap = Heap()
        self.facts = Facts()
        self.events = []
        self.loopsrc = {}
        self.joint = {}
        self.xattrs = {}        # attributes the program sets on objects of libraries

    def clone(self, events=True):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = self.heap.share()
        s.facts = self.facts.clone()
        s.events = list(self.events) if events else []
        s.loopsrc = dict(self.loopsrc)
        s.joint = dict(self.joint)
        s.xattrs = dict(self.xattrs)
        return s


class BodyPath(object):
    """One abstract path through a loop body."""

    def __init__(self, kind, value, facts, events, state, trace):
        self.kind = kind        # next / break / return / raise / abort / undecided
        self.value = value
        self.facts = facts      # facts assumed inside the body
        self.events = events
        self.state = state
        self.trace = trace


class Loop(object):
    def __init__(self, lid, node, over, where):
        self.id = lid
        self.node = node
        self.over = over        # content term iterated over
        self.where = where
        self.paths = []
        self.live = None        # label of the live container iterated over, if any


class PathResult(object):
    def __init__(self, kind, value, state, trace):
        self.kind = kind        # ok / raise / undecided
        self.value = value
        self.state = state
        self.trace = trace

    @property
    def events(self):
        return self.state.events

    @property
    def facts(self):
        return self.state.facts

    def facts_text(self):
        return ["%s%s" % ("" if v else "not ", show(a)) for a, v in self.state.facts.log]


class Function(object):
    """A function value: its definition, the frame it closes over, its defaults."""
    __slots__ = ("node", "module", "frame", "defaults", "cls", "name", "extra")

    def __init__(self, node, module, frame, defaults, cls=None, name=None):
        self.node, self.module, self.frame, self.defaults = node, module, frame, defaults
        self.cls, self.name = cls, name
        self.extra = {}


class Class(object):
    def __init__(self, q, bases, module):
        self.q = q
        self.bases = bases      # list of ('cls', q) / ('x', name)
        self.module = module
        self.dict = {}
        self.node = None


class Config(object):
    def __init__(self, **kw):
        self.hazards = {"parse", "none", "key", "zerodiv", "index", "unpack"}
        self.max_paths = 4000
        self.max_time = 1e9     # seconds of one exploration
        self.max_body_paths = 400
        self.unroll = 16
        self.unroll_true = False    # unroll loops without a condition too
        self.exact_order = False    # search and sort closed lists with Python 2's order of values
        self.world = None           # (kind, term) -> the number that hash() or id() gives in this process
        self.ext = {}           # dotted name -> handler(I, args, kw, node)
        self.raisers = {}       # name of external -> list of exceptions it may raise
        self.opaque_methods = {}
        self.alphabet = {}      # symbol -> the set of characters that the (non-empty) text consists of
        self.fields = {}        # tuple -> the names of its fields, if it is a named one
        self.load = ()          # further modules of stubs/ to load
        self.stubs = {}         # dotted name of a library -> name in stubs.twisted_model
        self.on_yield = None
        self.depth = 80
        self.max_steps = 3000000
        self.log_writes = True
        self.consts = {}
        self.absent_attrs = set()
        self.inherited = {}
        self.opaque_attrs = {}
        self.ret_types = {}
        for k, v in kw.items():
            setattr(self, k, v)


class Chooser(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.ns = []
        self.nloops = 0

    def choose(self, n):
        i = len(self.trace)
        v = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append(v)
        self.ns.append(n)
        return v


PY2_ATTRS = ("has_key", "iteritems", "iterkeys", "itervalues", "viewitems", "viewkeys", "viewvalues", "im_func", "im_self")


class Interp(object):
    def __init__(self, program, cfg=None):
        self.program = program
        self.cfg = cfg or Config()
        self.len_asked = None
        self.modules = {}
        self.classes = {}
        self.fns = {}
        self.st = State()
        self.ch = None
        self.ch_stack = []
        self.ctr = 1
        self.hictr = 1
        self.stack = []
        self.loops = {}
        self.memo = {}
        self.yield_handlers = []
        self.analysed = set()
        self.steps = 0
        self.loading = 0
        self.max_seen_paths = 0
        self.notes = []
        self.base = None
        self.exc_stack = []
        self.constructing = []
        import builtin_models
        self.bm = builtin_models.Models(self)

    # ------------------------------------------------------------ plumbing
    def fresh(self):
        self.ctr += 1
        return self.ctr

    def where(self, node=None):
        n = node
        if n is None or not hasattr(n, "lineno"):
            for f in reversed(self.stack):
                if f[2] is not None:
                    n = f[2]
                    break
        if n is None:
            return "?"
        return "%s:%s" % (getattr(n, "file", "?"), n.lineno)

    def fnname(self):
        for f in reversed(self.stack):
            if f[0]:
                return f[0]
        return "<module>"

    def event(self, kind, what, args=(), kw=None, node=None, extra=None, ret=None):
        if kind == "write":
            extra = dict(extra or {}, target=args[0], raw=tuple(args))
        e = Ev(kind, what, tuple(a if kind == "write" and i == 0 else self.snap(a) for i, a in enumerate(args)),
               {k: self.snap(v) for k, v in (kw or {}).items()},
               self.where(node), self.fnname(), extra, ret)
        self.st.events.append(e)
        return e

    def choose(self, n):
        if self.ch is None:
            return 0
        return self.ch.choose(n)

    def alloc(self, obj):
        oid = self.fresh()
        self.st.heap[oid] = obj
        return ("obj", oid)

    def obj(self, t):
        return self.st.heap[t[1]]

    def isobj(self, t, *kinds):
        if not (isinstance(t, tuple) and t[0] == "obj" and t[1] in self.st.heap):
            return False
        return not kinds or self.st.heap.peek(t[1]).kind in kinds

    def new_list(self, elems=(), content=None):
        o = Obj("list")
        o.content = content if content is not None else ("list",) + tuple(elems)
        return self.alloc(o)

    def new_dict(self, items=()):
        o = Obj("dict")
        t = self.alloc(o)
        for k, v in items:
            self.dict_set(t, k, v, None, quiet=True)
        return t

    # a term in which lists and dicts are replaced by their present content
    def snap(self, t, depth=0):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "obj" and t[1] in self.st.heap and depth < 6:
            o = self.st.heap.peek(t[1])
            if o.kind in ("list", "deque"):
                return self.snap(o.content, depth + 1)
            if o.kind == "set":
                return ("setof", self.snap(o.content, depth + 1))
            if o.kind == "dict":
                if not o.open:
                    return ("dict",) + tuple((self.snap(k, depth + 1), self.snap(v, depth + 1))
                                             for k, v in o.entries.items()) + tuple(
                        ("dmap",) + p for p in o.pieces)
            return t
        if t[0] in ("c", "sym", "x", "cls", "fn"):
            return t
        if any(isinstance(x, tuple) for x in t):
            return tuple(self.snap(x, depth + 1) if isinstance(x, tuple) else x for x in t)
        return t

    # ------------------------------------------------------------ exploration
    def explore(self, scenario, max_paths=None):
        """Every abstract path of scenario(self)."""
        if self.base is None:
            self.base = self.st.clone()
            self.base_ctr = self.ctr
        else:
            # identities of different explorations never coincide
            self.base_ctr = max(self.base_ctr, self.hictr)
        maxp = max_paths or self.cfg.max_paths
        results = []
        stack = [[]]
        self.memo = {}
        self.truncated = False
        t0 = time.time()
        while stack:
            if len(results) >= maxp or time.time() - t0 > self.cfg.max_time:
                self.truncated = True
                results.append(PathResult("undecided", "more than %d paths" % len(results), self.st, []))
                break
            prefix = stack.pop()
            self.st = self.base.clone()
            self.ctr = self.base_ctr
            self.ch = Chooser(prefix)
            self.ch_stack = []
            self.stack = []
            self.yield_handlers = []
            self.exc_stack = []
            self.constructing = []
            self.steps = 0
            kind, val = self._run_path(lambda: scenario(self))
            self.hictr = max(self.hictr, self.ctr)
            tr = self.ch
            for i in range(len(tr.trace) - 1, len(prefix) - 1, -1):
                for alt in range(tr.ns[i] - 1, 0, -1):
                    stack.append(tr.trace[:i] + [alt])
            if kind != "infeasible":
                results.append(PathResult(kind, val, self.st, list(tr.trace)))
        self.ch = None
        self.max_seen_paths += len(results)
        return results

    def _run_path(self, f):
        try:
            return "ok", f()
        except PyRaise as e:
            return "raise", e
        except Undecided as e:
            return "undecided", str(e) or "?"
        except Infeasible:
            return "infeasible", None
        except (PyBreak, PyContinue, PyReturn) as e:
            return "undecided", "stray %r" % e
        except RecursionError:
            return "undecided", "recursion"
        except AnalysisBroken:
            raise
        except Exception as e:
            if DEBUG:
                raise
            return "undecided", "not modelled: %s: %s" % (type(e).__name__, e)

    # ------------------------------------------------------------ facts
    def decide(self, atom):
        return self.st.facts.decide(atom)

    def assume(self, atom, val):
        self.st.facts.assume(atom, val)

    def split(self, atom):
        """Truth of an atom on this path, splitting when it is not known."""
        neg = False
        while atom[0] == "not":
            atom, neg = atom[1], not neg
        r = self.decide(atom)
        if r is None:
            r = self.choose(2) == 0
            self.assume(atom, r)
        return r != neg

    # Texts built from constants and symbols of a known alphabet: each symbol is one private character, which
    # behaves as the text does under operations whose arguments have no character of any alphabet.
    def marked(self, t):
        if not self.cfg.alphabet:
            return None
        out = []
        for x in (t[1:] if t[0] == "cat" else (t,)):
            if is_const(x) and isinstance(x[1], str):
                out.append(x[1])
            elif x in self.cfg.alphabet:
                out.append(chr(0xe000 + list(self.cfg.alphabet).index(x)))
            else:
                return None
        return "".join(out)

    def unmarked(self, s):
        al = list(self.cfg.alphabet)
        parts, run = [], ""
        for ch in s:
            if ord(ch) >= 0xe000:
                parts += [const(run), al[ord(ch) - 0xe000]]
                run = ""
            else:
                run += ch
        return cat(parts + [const(run)])

    def texts_differ(self, a, b):
        """No texts of the symbols make the two equal; one of them is constant."""
        for x, y in ((a, b), (b, a)):
            if all(ord(ch) < 0xe000 for ch in x):
                al = list(self.cfg.alphabet.values())
                pat = "".join("[%s]+" % "".join(_re.escape(c) for c in sorted(al[ord(ch) - 0xe000])) if ord(ch) >= 0xe000 else _re.escape(ch) for ch in y)
                return _re.match("(?:%s)$" % pat, x) is None
        return False

    def foreign(self, text):
        """No character of the text is in an alphabet."""
        return all(ch not in a for a in self.cfg.alphabet.values() for ch in text)

    def truth_atom(self, t):
        """A constant or an atom for bool(t); may split the path."""
        if is_const(t):
            return TRUE if t[1] else FALSE
        if self.cfg.alphabet:
            m = self.marked(t)
            if m is not None:
                return TRUE if m else FALSE
        k = t[0]
        if k in BOOL_OPS:
            return t
        if k == "tuple":
            return TRUE if len(t) > 1 else FALSE
        if k == "obj":
            o = self.obj(t)
            if o.kind in ("list", "deque", "set"):
                return self.not_(self.eq0(self.len_of(t)))
            if o.kind == "dict":
                return self.not_(self.eq0(self.len_of(t)))
            if o.kind == "inst":
                for m in ("__nonzero__", "__len__"):
                    if self.class_lookup(o.cls, m) is not None:
                        r = self.call(self.getattr(t, m, None), [], {}, None)
                        return self.truth_atom(r)
            return TRUE
        if k in ("fn", "bm", "cls", "x", "partial", "gen", "super", "regex"):
            return TRUE
        if nullable(t) and ty(t) != "unk":
            r = self.decide(("isnone", t))
            if r is None:
                if ty(t) in ("obj", "fn"):
                    return self.not_(("isnone", t))
                r = self.split(("isnone", t))
            if r:
                return FALSE
        y = ty(t)
        if y == "str":
            if k == "cat" and any(p[0] == "c" for p in t[1:]):
                return TRUE
            return ("nonempty", t)
        if y in ("int", "float", "num"):
            return self.not_(self.eq0(t))
        if y == "bool":
            return ("truth", t)
        if y == "list":
            return self.not_(self.eq0(self.len_of(t)))
        if y in ("obj", "fn", "tuple"):
            return TRUE
        if k == "rematch":
            return self.not_(("isnone", t))
        return ("truth", t)

    def not_(self, a):
        if is_const(a):
            return FALSE if a[1] else TRUE
        if a[0] == "not":
            return a[1]
        return ("not", a)

    def eq0(self, t):
        if is_const(t):
            return TRUE if t[1] == 0 else FALSE
        try:
            c = canon_num(t)
        except NotNumeric:
            return ("eq0", t)
        if is_const(c):
            return TRUE if c[1] == 0 else FALSE
        # sign-normalise
        n = canon_num(("neg", c))
        if repr(n) < repr(c):
            c = n
        return ("eq0", c)

    def lt0(self, t):
        try:
            c = canon_num(t)
        except NotNumeric:
            return ("lt0", t)
        if is_const(c):
            return TRUE if c[1] < 0 else FALSE
        return ("lt0", c)

    def test(self, t):
        a = self.truth_atom(t)
        if is_const(a):
            return bool(a[1])
        return self.split(a)

    # ------------------------------------------------------------ equality
    def eq_atom(self, a, b):
        if a == b:
            return TRUE
        if is_const(a) and is_const(b):
            return TRUE if a[1] == b[1] else FALSE
        if self.cfg.alphabet:
            ma, mb = self.marked(a), self.marked(b)
            if ma is not None and mb is not None and self.texts_differ(ma, mb):
                return FALSE
        if a == NONE:
            a, b = b, a
        if b == NONE:
            if a[0] in ("obj", "tuple", "fn", "bm", "cls", "x", "partial", "gen", "cat"):
                return FALSE
            return ("isnone", a)
        ta, tb = ty(a), ty(b)
        num = ("int", "float", "num", "bool")
        if ta in num and tb in num:
            return self.eq0(("sub", a, b))
        if a[0] == "tuple" and b[0] == "tuple":
            if len(a) != len(b):
                return FALSE
            for x, y in zip(a[1:], b[1:]):
                at = self.eq_atom(x, y)
                if not (at[1] if is_const(at) else self.split(at)):
                    return FALSE
            return TRUE
        if a[0] == "obj" and b[0] == "obj":
            oa, ob = self.obj(a), self.obj(b)
            if oa.kind == "inst" and self.class_lookup(oa.cls, "__eq__"):
                return ("unk", self.fresh())
            if oa.kind in ("list", "dict", "set", "deque") and ob.kind == oa.kind:
                return self.eq_content(self.snap(a), self.snap(b))
            return FALSE
        if a[0] in ("obj",) and self.isobj(a, "list", "deque") and ty(b) == "list":
            return self.eq_content(self.snap(a), b)
        if {ta, tb} == {"str", "int"} or (ta == "str" and tb in num) or (tb == "str" and ta in num):
            return FALSE
        if (ta == "str" and tb in ("tuple", "list", "obj")) or (tb == "str" and ta in ("tuple", "list", "obj")):
            if not (nullable(a) or nullable(b)):
                return FALSE
        kinds = ("fn", "bm", "cls", "x", "partial")
        if a[0] in kinds and b[0] in kinds and a[0] != "bm":
            return FALSE
        if is_const(a) or (not is_const(b) and repr(b) < repr(a)):
            a, b = b, a
        if is_const(b) and b[1] == "" and ta == "str":
            return self.not_(("nonempty", a))
        if a[0] == "cat" or b[0] == "cat":
            r = self._eq_cat(a, b)
            if r is not None:
                return r
        return ("eq", a, b)

    def _eq_cat(self, a, b):
        pa = list(a[1:]) if a[0] == "cat" else [a]
        pb = list(b[1:]) if b[0] == "cat" else [b]
        changed = False
        while pa and pb and pa[0] == pb[0]:
            pa.pop(0), pb.pop(0)
            changed = True
        while pa and pb and pa[-1] == pb[-1]:
            pa.pop(), pb.pop()
            changed = True
        if changed:
            return self.eq_atom(cat(pa), cat(pb))
        return None

    def eq_content(self, a, b):
        if a == b:
            return TRUE
        if a[0] == "list" and b[0] == "list":
            if len(a) != len(b):
                return FALSE
            return self.eq_atom(("tuple",) + a[1:], ("tuple",) + b[1:])
        return ("eq", a, b) if repr(a) < repr(b) else ("eq", b, a)

    # ------------------------------------------------------------ hazards
    def hazard(self, kind, exc, node, reason, definite=True):
        """Split off a path on which exc is raised here."""
        if kind not in self.cfg.hazards or self.loading:
            return
        if self.choose(2) == 1:
            raise PyRaise(exc, node, reason, definite=definite, where=self.where(node))

    def raise_(self, exc, node, reason, definite=True):
        raise PyRaise(exc, node, reason, definite=definite, where=self.where(node))

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name not in self.program.modules:
            return None
        g = {"__name__": const(name), "__file__": const(name)}
        self.modules[name] = g
        tree = self.program.modules[name]
        fid = ("g", name)
        self.loading += 1
        saved, self.ch = self.ch, None
        saved_st = None
        if self.base is not None:
            # first use after the analysis started: module state joins the base
            saved_st = self.st
            self.st = self.base
            sc, self.ctr = self.ctr, self.base_ctr + 0
        ss, self.stack = self.stack, []
        try:
            self.stack.append((None, fid, None, name))
            self.exec_block(tree.body, fid)
        finally:
            self.stack = ss
            self.loading -= 1
            self.ch = saved
            if saved_st is not None:
                raise AnalysisBroken("module %s loaded late" % name)
        return g

    def load_all(self):
        if self.cfg.stubs:
            self.module("stubs.twisted_model")
        for m in sorted(self.program.modules):
            if not m.startswith("stubs."):
                self.module(m)
        for m in self.cfg.load:
            self.module(m)

    def lookup_global(self, module, name):
        g = self.modules.get(module)
        if g is not None and name in g:
            return g[name]
        return None

    # ------------------------------------------------------------ frames
    def fget(self, fid, name):
        if isinstance(fid, tuple) and fid[0] == "g":
            return self.modules[fid[1]].get(name)
        if isinstance(fid, tuple) and fid[0] == "k":
            return self.classes[fid[1]].dict.get(name)
        return self.st.frames[fid].get(name)

    in_body = 0         # bodies of summarised loops being explored

    def set_static(self, key, v):
        """A variable of a module or class is assigned while the program runs."""
        if self.in_body:
            raise Undecided("assignment to %s in a loop" % key)
        self.st.xattrs[key] = v

    def fset(self, fid, name, v):
        if isinstance(fid, tuple) and fid[0] == "g":
            if not self.loading:
                self.set_static("mod:%s.%s" % (fid[1], name), v)
                return
            self.modules[fid[1]][name] = v
        elif isinstance(fid, tuple) and fid[0] == "k":
            self.classes[fid[1]].dict[name] = v
        else:
            self.st.frames[fid][name] = v

    def fdel(self, fid, name):
        if isinstance(fid, tuple):
            raise Undecided("del of a global")
        self.st.frames[fid].pop(name, None)

    def load_name(self, name, fid, node):
        f = fid
        first = True
        while f is not None and not (isinstance(f, tuple) and f[0] == "g"):
            if isinstance(f, tuple):      # class body
                v = self.classes[f[1]].dict.get(name)
                if v is not None and first:
                    return v
                f = self.classes[f[1]].parent_frame
                continue
            fr = self.st.frames.get(f)
            if fr is None:
                raise Undecided("lost frame")
            if name in fr:
                return fr[name]
            if name in fr["#locals"]:
                self.raise_("UnboundLocalError", node, "%s may be used before it is assigned" % name)
            f = fr["#up"]
            first = False
        if f is not None and self.st is not None and self.st.xattrs:
            v = self.st.xattrs.get("mod:%s.%s" % (f[1], name))
            if v is not None:
                return v
        if f is not None and name in self.modules[f[1]]:
            return self.modules[f[1]][name]
        r = self.bm.builtin(name)
        if r is not None:
            return r
        if self.loading:
            return ("x", "builtin." + name)
        self.raise_("NameError", node, "name %s is not defined" % name)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, fid):
        for s in body:
            self.exec(s, fid)

    def exec(self, n, fid):
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise Undecided("step limit")
        if DEADLINE and not self.steps & 255 and time.time() > DEADLINE[0]:
            raise OutOfTime()
        if self.stack:
            t = self.stack[-1]
            self.stack[-1] = (t[0], t[1], n, t[3])
        k = n._
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Undecided("statement %s" % k)
        m(n, fid)

    def x_Pass(self, n, fid):
        pass

    def x_Global(self, n, fid):
        pass

    def x_Expr(self, n, fid):
        self.ev(n.value, fid)

    def x_Print(self, n, fid):
        args = [self.ev(v, fid) for v in n.values]
        self.event("call", "print", args, node=n)

    def x_Assign(self, n, fid):
        v = self.ev(n.value, fid)
        for t in n.targets:
            self.assign(t, v, fid)

    def x_AugAssign(self, n, fid):
        t = n.target
        if t._ == "Name":
            old = self.load_name(t.id, fid, t)
            v = self.inplace(n.op._, old, self.ev(n.value, fid), n)
            self.assign(t, v, fid)
        elif t._ == "Attribute":
            o = self.ev(t.value, fid)
            old = self.getattr(o, t.attr, t)
            v = self.inplace(n.op._, old, self.ev(n.value, fid), n)
            self.setattr(o, t.attr, v, n)
        elif t._ == "Subscript":
            o = self.ev(t.value, fid)
            if t.slice._ != "Index":
                raise Undecided("augmented slice")
            i = self.ev(t.slice.value, fid)
            old = self.getitem(o, i, t)
            v = self.inplace(n.op._, old, self.ev(n.value, fid), n)
            self.setitem(o, i, v, n)
        else:
            raise Undecided("augmented assignment")

    def inplace(self, op, old, new, n):
        if op == "Add" and self.isobj(old, "list", "deque"):
            self.bm.list_extend(old, new, n)
            return old
        if op == "BitOr" and self.isobj(old, "set"):
            self.bm.set_update(old, new, n)
            return old
        return self.binop(op, old, new, n)

    def x_Delete(self, n, fid):
        for t in n.targets:
            if t._ == "Name":
                self.fdel(fid, t.id)
            elif t._ == "Subscript" and t.slice._ == "Index":
                o = self.ev(t.value, fid)
                self.delitem(o, self.ev(t.slice.value, fid), n)
            elif t._ == "Subscript" and t.slice._ == "Slice":
                o = self.ev(t.value, fid)
                lo = self.ev(t.slice.lower, fid) if t.slice.lower else NONE
                hi = self.ev(t.slice.upper, fid) if t.slice.upper else NONE
                self.bm.list_delslice(o, lo, hi, n)
            elif t._ == "Attribute":
                o = self.ev(t.value, fid)
                if self.isobj(o, "inst"):
                    self.obj(o).attrs.pop(t.attr, None)
                    self.event("write", "del", [o, const(t.attr)], node=n)
                else:
                    raise Undecided("del attribute")
            else:
                raise Undecided("del")

    def x_Return(self, n, fid):
        v = self.ev(n.value, fid) if n.value is not None else NONE
        raise PyReturn(v)

    def x_Break(self, n, fid):
        raise PyBreak()

    def x_Continue(self, n, fid):
        raise PyContinue()

    def x_If(self, n, fid):
        if self.test(self.ev_cond(n.test, fid)):
            self.exec_block(n.body, fid)
        else:
            self.exec_block(n.orelse, fid)

    def x_Assert(self, n, fid):
        v = self.ev_cond(n.test, fid)
        a = self.truth_atom(v)
        if is_const(a):
            if not a[1]:
                self.raise_("AssertionError", n, "assertion fails")
            return
        r = self.decide(a)
        if r is None:
            if "assert" in self.cfg.hazards:
                if not self.split(a):
                    self.raise_("AssertionError", n, "assertion may fail")
            else:
                self.assume(a, True)
        elif not r:
            self.raise_("AssertionError", n, "assertion fails")

    def x_Raise(self, n, fid):
        if n.type is None:
            if self.exc_stack:
                e = self.exc_stack[-1]
                raise PyRaise(e.exc, e.node, e.reason, e.msg, e.definite, e.where)
            raise Undecided("bare raise")
        v = self.ev(n.type, fid)
        if getattr(n, "inst", None) is not None:
            self.ev(n.inst, fid)
        if v[0] == "exc":
            raise PyRaise(v[1], n, "raised explicitly", msg=v[2], where=self.where(n))
        if v[0] == "x":
            raise PyRaise(self.exc_id(v), n, "raised explicitly", where=self.where(n))
        if v[0] == "cls":
            raise PyRaise(v, n, "raised explicitly", where=self.where(n))
        if self.isobj(v, "inst"):
            raise PyRaise(("cls", self.obj(v).cls), n, "raised explicitly", where=self.where(n))
        raise PyRaise("*", n, "raised explicitly", definite=False, where=self.where(n))

    def exc_id(self, t):
        if t[0] == "x":
            nm = t[1]
            if nm.startswith("builtin."):
                nm = nm[8:]
            if nm.startswith("exceptions."):
                nm = nm[11:]
            return EXC_ALIAS.get(nm, nm)
        return t

    def exc_matches(self, exc, handler):
        """True / False / None (unknown)."""
        h = self.exc_id(handler) if handler[0] in ("x", "cls") else None
        if h is None:
            return None
        if h in ("Exception", "BaseException"):
            return True
        if exc == "*":
            return False
        e = exc
        seen = 0
        while e is not None and seen < 20:
            seen += 1
            if e == h:
                return True
            if isinstance(e, tuple) and e[0] == "cls":
                c = self.classes.get(e[1])
                res = False
                for b in (c.bases if c else []):
                    r = self.exc_matches(self.exc_id(b), handler)
                    if r:
                        return True
                    if r is None:
                        res = None
                return res
            e = EXC_PARENT.get(e)
        return False

    def x_TryExcept(self, n, fid):
        depth = len(self.stack)
        nh = len(self.yield_handlers)
        try:
            self.exec_block(n.body, fid)
        except PyRaise as e:
            del self.stack[depth:]
            del self.yield_handlers[nh:]
            for h in n.handlers:
                if h.type is None:
                    ok = True
                else:
                    t = self.ev(h.type, fid)
                    opts = t[1:] if t[0] == "tuple" else (t,)
                    ok = False
                    for o in opts:
                        r = self.exc_matches(e.exc, o)
                        if r:
                            ok = True
                            break
                        if r is None:
                            ok = None
                if ok is None:
                    raise Undecided("exception handler of unknown type")
                if ok:
                    if h.name is not None:
                        v = ("exc", e.exc, e.msg if e.msg is not None else const(""))
                        if isinstance(h.name, Node):
                            self.assign(h.name, v, fid)
                        else:
                            self.fset(fid, h.name, v)
                    self.event("caught", excname(e.exc), [], node=h, extra=e.where)
                    self.exc_stack.append(e)
                    try:
                        self.exec_block(h.body, fid)
                    finally:
                        self.exc_stack.pop()
                    return
            raise
        else:
            self.exec_block(n.orelse, fid)

    def x_TryFinally(self, n, fid):
        depth = len(self.stack)
        try:
            self.exec_block(n.body, fid)
        except (PyRaise, PyReturn, PyBreak, PyContinue, ConsumerAbort):
            saved = self.stack[depth:]
            del self.stack[depth:]
            self.exec_block(n.finalbody, fid)
            self.stack.extend(saved)
            raise
        self.exec_block(n.finalbody, fid)

    def x_With(self, n, fid):
        items = getattr(n, "items", None)
        if items:
            raise Undecided("with items")
        c = self.ev(n.context_expr, fid)
        v = c
        if self.isobj(c, "inst"):
            v = self.call(self.getattr(c, "__enter__", n), [], {}, n)
        elif c[0] in ("ret", "attr", "sym"):
            self.event("call", "enter", [c], node=n)
        if n.optional_vars is not None:
            self.assign(n.optional_vars, v, fid)
        try:
            self.exec_block(n.body, fid)
        except (PyRaise, PyReturn, PyBreak, PyContinue):
            self.event("call", "exit", [c], node=n)
            raise
        self.event("call", "exit", [c], node=n)

    def x_Import(self, n, fid):
        for al in n.names:
            if al.asname:
                self.fset(fid, al.asname, self.import_name(al.name))
            else:
                top = al.name.split(".")[0]
                self.import_name(al.name)
                self.fset(fid, top, self.import_name(top))

    def import_name(self, name):
        if self.program.has(name):
            self.module(name)
            return ("mod", name)
        return ("x", name)

    def x_ImportFrom(self, n, fid):
        mod = n.module or ""
        for al in n.names:
            if al.name == "*":
                g = self.module(mod)
                if g is None:
                    raise Undecided("import * from outside")
                for k, v in list(g.items()):
                    if not k.startswith("_"):
                        self.fset(fid, k, v)
                continue
            self.fset(fid, al.asname or al.name, self.import_from(mod, al.name))

    def import_from(self, mod, name):
        full = mod + "." + name
        if self.program.has(mod):
            g = self.module(mod)
            if name in g:
                return g[name]
            if self.program.has(full):
                self.module(full)
                return ("mod", full)
            self.raise_("ImportError", None, "cannot import %s from %s" % (name, mod))
        if self.program.has(full):
            self.module(full)
            return ("mod", full)
        return self.bm.external(full)

    def make_function(self, n, fid, name, cls=None):
        defaults = tuple(self.ev(d, fid) for d in n.args.defaults)
        i = self.fresh()
        module = self.cur_module(fid)
        self.fns[i] = Function(n, module, fid, defaults, cls, name)
        self.capture(fid)
        return ("fn", i)

    def capture(self, fid):
        f = fid
        while f is not None and not isinstance(f, tuple):
            fr = self.st.frames.get(f)
            if fr is None or fr.get("#cap"):
                return
            fr["#cap"] = True
            f = fr["#up"]

    def cur_module(self, fid):
        f = fid
        while not (isinstance(f, tuple) and f[0] == "g"):
            if isinstance(f, tuple):
                return self.classes[f[1]].module
            f = self.st.frames[f]["#up"]
        return f[1]

    def x_FunctionDef(self, n, fid):
        cls = fid[1] if isinstance(fid, tuple) and fid[0] == "k" else None
        v = self.make_function(n, fid, n.name, cls)
        for d in reversed(n.decorator_list):
            dec = self.ev(d, fid)
            v = self.call(dec, [v], {}, d)
        self.fset(fid, n.name, v)

    def x_ClassDef(self, n, fid):
        mod = self.cur_module(fid)
        q = mod + "." + n.name
        if q in self.classes and not self.loading:
            q = q + "#%d" % self.fresh()
        bases = [self.ev(b, fid) for b in n.bases]
        c = Class(q, bases, mod)
        c.node = n
        c.parent_frame = fid
        self.classes[q] = c
        self.stack.append((q, ("k", q), n, mod))
        try:
            self.exec_block(n.body, ("k", q))
        finally:
            self.stack.pop()
        v = ("cls", q)
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d, fid), [v], {}, d)
        self.fset(fid, n.name, v)

    def x_Exec(self, n, fid):
        raise Undecided("exec")

    # -- loops
    def x_For(self, n, fid):
        it = self.ev(n.iter, fid)

        def body(elem):
            self.assign(n.target, elem, fid)
            self.exec_block(n.body, fid)
        broke = self.iterate(it, body, n)
        if not broke and n.orelse:
            self.exec_block(n.orelse, fid)

    def x_While(self, n, fid):
        count = 0
        while True:
            save = (len(self.ch.trace) if self.ch else 0)
            c = self.ev_pure_cond(n.test, fid)
            if c is None and self.cfg.unroll_true and count < self.cfg.unroll and self.bounded_test(n.test, fid):
                c = self.test(self.ev_cond(n.test, fid))
            if c is None:
                break
            if not c:
                self.exec_block(n.orelse, fid)
                return
            if not self.while_progress(n, fid):
                break
            count += 1
            if count > self.cfg.unroll:
                break
            try:
                self.exec_block(n.body, fid)
            except PyContinue:
                pass
            except PyBreak:
                return
        self.summarise_while(n, fid)

    def bounded_test(self, t, fid):
        """A conjunction of which one part is decided: it is left to that part to end the loop."""
        return t._ == "BoolOp" and t.op._ == "And" and any(self.ev_pure_cond(v, fid) for v in t.values)

    def ev_pure_cond(self, e, fid):
        """Truth of a condition if it is decided without splitting, else None."""
        saved_st, saved_ch = self.st, self.ch
        trial = self.st.clone()
        ctr = self.ctr
        ch = Chooser([])
        self.ch_stack.append(self.ch)
        self.ch = ch
        self.st = trial
        stack = list(self.stack)
        try:
            v = self.ev_cond(e, fid)
            a = self.truth_atom(v)
            r = bool(a[1]) if is_const(a) else self.decide(a)
            if ch.trace:
                r = None
        except (PyRaise, Infeasible):
            r = None
        finally:
            self.ch = self.ch_stack.pop()
            self.st = saved_st
            self.stack = stack
        if r is None:
            self.ctr = ctr
        else:
            self.st = trial
        return r

    def while_progress(self, n, fid):
        # an unconditional loop (while True) is summarised, not unrolled
        t = n.test
        if t._ == "Num" or (t._ == "Name" and t.id in ("True",)):
            return self.cfg.unroll_true
        return True

    def summarise_while(self, n, fid):
        def setup():
            pass

        def body(elem):
            if not self.test(self.ev_cond(n.test, fid)):
                raise _WhileEnd()
            self.exec_block(n.body, fid)
        loop = self.run_loop(n, ("while", self.fresh()), lambda loop: NONE, body, is_while=True)
        # leaving through the condition
        if loop is not None and loop != "break":
            if not self.is_true_const(n.test, fid):
                if self.test_quiet(n.test, fid):
                    raise Infeasible()
                self.exec_block(n.orelse, fid)

    def test_quiet(self, e, fid):
        return self.test(self.ev_cond(e, fid))

    def is_true_const(self, t, fid):
        if t._ == "Num":
            return bool(t.n)
        if t._ == "Name" and t.id == "True":
            return True
        return False

    # ------------------------------------------------------------ iteration
    def iterate(self, it, body, node):
        """Run body(elem) for each element of it.  True when left by break."""
        if it[0] == "gen":
            return self.iterate_gen(it, body, node)
        if it[0] == "obj" and self.isobj(it, "list") and self.obj(it).content is not None and self.obj(it).content[0] == "list" and len(self.obj(it).content) <= self.cfg.unroll:
            return self.iterate_list(it, body)
        watch = self.live_size(it)
        for seg in self.segments(it, node):
            if seg[0] == "closed":
                elems = seg[1]
                if len(elems) > self.cfg.unroll:
                    if len(elems) > 200:
                        raise Undecided("very long constant sequence")
                for i, e in enumerate(elems):
                    try:
                        body(e() if callable(e) else e)
                    except PyContinue:
                        pass
                    except PyBreak:
                        return True
                    if watch is not None and self.live_size(it) not in (watch, None):
                        self.raise_("RuntimeError", node, "the container changed size during iteration")
            else:
                _, over, factory, live = seg
                r = self.run_loop(node, over, factory, body, live=live)
                if r == "break":
                    return True
        return False

    def iterate_list(self, it, body):
        """A list's iterator counts positions of the list as it is at each step."""
        i, first = 0, self.obj(it).content
        while True:
            c = self.obj(it).content
            if c[0] != "list":
                c = first
            if i >= len(c) - 1:
                return False
            if i > self.cfg.unroll + len(first):
                raise Undecided("a list that grows as it is iterated over")
            e = c[i + 1]
            i += 1
            try:
                body(e)
            except PyContinue:
                pass
            except PyBreak:
                return True

    def live_size(self, it):
        """The size of a container whose iterator fails when the size changes; None: no such thing."""
        if it[0] in ("dlive", "iter"):
            it = it[1]
        if it[0] != "obj" or it[1] not in self.st.heap:
            return None
        o = self.obj(it)
        if o.kind == "dict":
            return None if o.open else len([k for k in o.entries if k not in o.absent])
        if o.kind in ("deque", "set") and o.content is not None and o.content[0] in ("list", "setc"):
            return len(o.content)
        return None

    def iterate_gen(self, g, body, node):
        """Consume a generator: its body runs with body() in place of yield."""
        o = self.obj(g)
        if o.extra.get("done"):
            return False
        o.extra = dict(o.extra, done=True)
        tag = self.fresh()
        caller_stack = list(self.stack)
        caller_handlers = list(self.yield_handlers)

        def handler(v):
            gs, gh = self.stack, self.yield_handlers
            self.stack, self.yield_handlers = list(caller_stack), list(caller_handlers)
            try:
                body(v)
            except PyContinue:
                pass
            except (PyBreak, PyReturn) as e:
                raise ConsumerAbort(tag, e)
            except PyRaise as e:
                raise ConsumerAbort(tag, e)
            finally:
                self.stack, self.yield_handlers = gs, gh
            return NONE
        try:
            o.extra["start"](handler)
        except ConsumerAbort as e:
            if e.tag != tag:
                raise
            self.stack, self.yield_handlers = caller_stack, caller_handlers
            if isinstance(e.inner, PyBreak):
                return True
            raise e.inner
        self.stack, self.yield_handlers = caller_stack, caller_handlers
        return False

    def content_of(self, t):
        """The list-content term of an iterable value, or None."""
        if t[0] == "obj":
            o = self.obj(t)
            if o.kind in ("list", "deque", "set"):
                return o.content
            return None
        return t

    def segments(self, it, node):
        """Split an iterable into closed and open parts."""
        if it[0] == "tuple":
            return [("closed", list(it[1:]))]
        if it[0] == "iter":
            return self.segments(it[1], node)
        live = None
        if it[0] == "obj":
            o = self.obj(it)
            if o.kind == "dict":
                return self.dict_segments(it, "keys", o.ver, live=(it, "dict"))
            if o.kind in ("list", "deque", "set"):
                if o.kind == "deque" or o.kind == "set" or o.kind == "list":
                    live = (it, o.kind)
                return self.content_segments(o.content, node, live)
            if o.kind == "inst":
                m = self.class_lookup(o.cls, "__iter__")
                if m is not None:
                    r = self.call(self.getattr(it, "__iter__", node), [], {}, node)
                    return self.segments(r, node)
                raise Undecided("iteration over an instance")
            raise Undecided("iteration over %s" % o.kind)
        if it[0] in ("dlive",):
            # iterkeys/itervalues/iteritems of a dict
            return self.dict_segments(it[1], it[2], self.obj(it[1]).ver, live=(it[1], "dict"))
        if it[0] in ("enum", "zipit", "revit", "mapit"):
            return self.bm.adapter_segments(it, node)
        if is_const(it) and isinstance(it[1], str):
            return [("closed", [const(c) for c in it[1]])]
        if it == NONE:
            self.raise_("TypeError", node, "iteration over None")
        if ty(it) in ("int", "float", "num", "bool") or it[0] in ("fn", "bm"):
            self.raise_("TypeError", node, "iteration over a number")
        return self.content_segments(it, node, live)

    def content_segments(self, c, node, live=None):
        k = c[0]
        if k in ("list", "setc"):
            return [("closed", list(c[1:]))]
        if k == "lcat":
            out = []
            for p in c[1:]:
                out.extend(self.content_segments(p, node, live))
            return out
        if k in ("keys", "values", "items"):
            return self.dict_segments(("obj", c[1]), k, c[2], live)
        if k == "sorted" and c[1][0] == "list":
            return [("closed", self.sort_closed(list(c[1][1:])))]
        if k == "rev" and c[1][0] == "list":
            return [("closed", list(reversed(c[1][1:])))]
        if k in ("sorted", "setof", "uniq"):
            segs = self.content_segments(c[1], node, live)
            if k == "sorted" and all(s[0] == "closed" for s in segs):
                return [("closed", self.sort_closed([e for s in segs for e in s[1]]))]
            return segs
        if k == "lmap":
            return [("open", c, lambda loop: self.lmap_elem(c, loop), live)]
        if k == "lrep":
            if is_const(c[2]) and c[2][1] <= self.cfg.unroll:
                return [("closed", [c[1]] * max(0, c[2][1]))]
            return [("open", c, lambda loop: c[1], live)]
        if k == "rangel":
            n = c[1]
            if is_const(n):
                if n[1] <= self.cfg.unroll:
                    return [("closed", [const(i) for i in range(max(0, n[1]))])]

            def rng(loop):
                e = ("lidx", loop.id, "int")
                self.assume(self.lt0(("sub", e, n)), True)
                return e
            return [("open", c, rng, live)]
        if k == "rangel2":
            def rng2(loop):
                e = ("lidx", loop.id, "int")
                self.assume(self.lt0(("sub", ("add", c[1], e), c[2])), True)
                return ("add", c[1], e)
            return [("open", c, rng2, live)]
        if k in ("insorted", "linsert"):
            # the inserted element, and the rest
            return self.content_segments(c[1], node, live) + [("closed", [c[-1]])]
        return [("open", c, lambda loop: self.generic_elem(c, loop.id), live)]

    def sort_closed(self, elems):
        keys = []
        for e in elems:
            kk = e
            while kk[0] == "tuple" and len(kk) > 1:
                kk = kk[1]
            keys.append(kk)
        if all(is_const(x) for x in keys):
            try:
                order = sorted(range(len(elems)), key=lambda i: keys[i][1])
                return [elems[i] for i in order]
            except TypeError:
                return elems
        return elems

    def elem_type(self, c):
        if c[0] in ("split", "splitlines", "rsplit"):
            return "str"
        if c[0] in ("sorted", "rev", "slice", "setof", "lset", "uniq"):
            return self.elem_type(c[1])
        if c[0] == "sym" and ":" in c[1]:
            pass
        p = self.elem_proto(c)
        if isinstance(p, str):
            return p
        return "unk"

    def elem_proto(self, c):
        if c[0] in ("sorted", "rev", "slice", "uniq", "lpop"):
            return self.elem_proto(c[1])
        return self.protos().get(c)

    def protos(self):
        if not hasattr(self, "_protos"):
            self._protos = {}
        return self._protos

    def generic_elem(self, c, lid):
        """An arbitrary element of an opaque list in loop lid."""
        base = c
        while base[0] in ("sorted", "rev", "uniq", "setof"):
            base = base[1]
        if base[0] == "zip":
            return ("tuple",) + tuple(self.generic_elem(x, lid) for x in base[1:])
        p = self.elem_proto(base)
        if callable(p):
            return p(self, ("elem", base, lid, "unk"))
        return ("elem", base, lid, p if isinstance(p, str) else self.elem_type(base))

    def lmap_elem(self, c, loop):
        """An element of a list built by an earlier loop: one of its body paths."""
        _, lid, over, alts = c
        src = self.loops[lid]
        usable = [a for a in alts if a[1]]
        if not usable:
            raise Infeasible()
        j = self.choose(len(usable)) if len(usable) > 1 else 0
        pi, elems = usable[j]
        for a, v in src.paths[pi].facts:
            try:
                self.assume(a, v)
            except Infeasible:
                raise
        # objects created by that path are needed here
        bst = src.paths[pi].state
        if bst is not None:
            for oid, o in bst.heap.items():
                if oid not in self.st.heap:
                    self.st.heap[oid] = o.clone()
            for f, fr in bst.frames.items():
                if f not in self.st.frames:
                    self.st.frames[f] = dict(fr)
        if len(elems) != 1:
            raise _Multi(elems)
        return elems[0]

    # -- generic loop summary
    def locs(self, st):
        out = {}
        for f, fr in st.frames.items():
            for v, t in fr.items():
                if v[0] != "#":
                    out[("f", f, v)] = t
        for oid, o in st.heap.items():
            if o.kind in ("list", "deque", "set"):
                out[("l", oid)] = o.content
            elif o.kind == "dict":
                out[("d", oid)] = (tuple((k, v) for k, v in o.entries.items() if o.mat.get(k) != v),
                                   o.pieces, o.open, o.ver)
            elif o.kind == "gen":
                continue
            for a, t in o.attrs.items():
                out[("a", oid, a)] = t
        return out

    def run_loop(self, node, over, factory, body, live=None, is_while=False):
        """Summarise a loop over an unknown number of elements."""
        st0 = self.st
        key = (id(node), self.ctr, tuple(self.ch.trace) if self.ch else (),
               tuple(tuple(c.trace) if c else () for c in self.ch_stack))
        where = self.where(node)
        if key in self.memo:
            loop, changed, exits, endctr = self.memo[key]
        else:
            self.lctr = getattr(self, "lctr", 0) + 1
            self.fresh()
            lid = "L%d" % self.lctr
            changed = {}
            rounds = 0
            while True:
                rounds += 1
                loop, newchanged = self._explore_body(lid, node, over, factory, body, st0, changed, where, live, is_while)
                grow = set(newchanged) - set(changed)
                if not grow or rounds > 6:
                    if rounds > 6:
                        raise Undecided("loop does not stabilise")
                    break
                for g in grow:
                    changed[g] = newchanged[g]
            exits = self._solve_exits(loop, st0, changed)
            endctr = self.ctr
            self.memo[key] = (loop, changed, exits, endctr)
        self.ctr = endctr
        self.loops[loop.id] = loop
        for p in loop.paths:
            if p.kind == "undecided":
                raise Undecided("in loop at %s: %s" % (where, p.value))
        ev = Ev("loop", loop.id, (), None, where, self.fnname(), loop)
        # choose how the loop ends: normally, or through one of its abrupt paths
        abrupt = [p for p in loop.paths if p.kind not in ("next", "end")]
        normal_end = not (is_while and self.is_true_const(node.test, None) if is_while else False)
        opts = ([None] if normal_end else []) + abrupt
        if not opts:
            # only diverges
            raise Infeasible()
        pick = opts[self.choose(len(opts))] if len(opts) > 1 else opts[0]
        st0.events.append(ev)
        if pick is None:
            self.apply_exits(loop, exits)
            return loop
        # abrupt: some iterations, then this path
        self.apply_exits(loop, exits, partial=True)
        sub = {}
        for loc, ph in loop.phi.items():
            cur = self.get_loc(loc)
            if cur is not None and isinstance(ph, tuple):
                sub[ph] = cur
        fin = pick.state
        # take over the state of the path: facts, heap, frames
        newst = fin.clone(events=False)
        newst.events = st0.events + list(pick.events)
        newst.facts = self.st.facts.clone()
        for a, v in pick.facts:
            newst.facts.assume(a, v)
        st0.frames, st0.heap, st0.facts, st0.events = newst.frames, newst.heap, newst.facts, newst.events
        st0.loopsrc = newst.loopsrc
        st0.joint = newst.joint
        self.st = st0
        st0.events.append(Ev("loopexit", loop.id, (), None, where, self.fnname(), pick))
        if pick.kind == "break":
            return "break"
        if pick.kind == "raise":
            raise pick.value
        if pick.kind == "return":
            raise PyReturn(pick.value)
        if pick.kind == "abort":
            raise pick.value
        raise Undecided("loop exit %s" % pick.kind)

    def _explore_body(self, lid, node, over, factory, body, st0, changed, where, live, is_while):
        loop = Loop(lid, node, over, where)
        loop.live = live
        loop.phi = {}
        pre = st0.clone(events=False)
        for loc, tyname in changed.items():
            ph = self.phi_value(lid, loc, tyname, pre)
            loop.phi[loc] = ph
        self.loops[lid] = loop
        stack_save, yh_save = list(self.stack), list(self.yield_handlers)
        exc_save = list(self.exc_stack)
        con_save = list(self.constructing)
        stack = [[]]
        self.ch_stack.append(self.ch)
        newchanged = {}
        self.in_body += 1
        try:
            npaths = 0
            while stack:
                npaths += 1
                if npaths > self.cfg.max_body_paths:
                    raise Undecided("too many paths through the loop at %s" % where)
                prefix = stack.pop()
                self.st = pre.clone(events=False)
                self.ch = Chooser(prefix)
                self.stack = list(stack_save)
                self.yield_handlers = list(yh_save)
                self.exc_stack = list(exc_save)
                self.constructing = list(con_save)
                nlog = len(self.st.facts.log)
                kind, val = "next", None
                before = self.locs(self.st)
                try:
                    try:
                        elems = (factory(loop),)
                    except _Multi as m:
                        elems = m.elems
                    loop.elem = elems[0]
                    for elem in elems:
                        try:
                            body(elem)
                        except PyContinue:
                            pass
                except _WhileEnd:
                    kind = "end"
                except PyBreak:
                    kind = "break"
                except PyReturn as e:
                    kind, val = "return", e.value
                except PyRaise as e:
                    kind, val = "raise", e
                except ConsumerAbort as e:
                    kind, val = "abort", e
                except Infeasible:
                    kind = "infeasible"
                except Undecided as e:
                    kind, val = "undecided", str(e)
                except AnalysisBroken:
                    raise
                except Exception as e:
                    if DEBUG:
                        raise
                    kind, val = "undecided", "not modelled: %s: %s" % (type(e).__name__, e)
                tr = self.ch
                for i in range(len(tr.trace) - 1, len(prefix) - 1, -1):
                    for alt in range(tr.ns[i] - 1, 0, -1):
                        stack.append(tr.trace[:i] + [alt])
                if kind == "infeasible":
                    continue
                after = self.locs(self.st)
                if kind in ("next",):
                    for loc, t in before.items():
                        t2 = after.get(loc)
                        if t2 != t:
                            newchanged[loc] = self._loc_type(loc, before, after, t2)
                    for loc, t in after.items():
                        # attributes and variables that did not exist before
                        if loc not in before and self._preexisting(loc, pre):
                            newchanged[loc] = self._loc_type(loc, before, after, t)
                loop.paths.append(BodyPath(kind, val, self.st.facts.log[nlog:], self.st.events,
                                           self.st, list(tr.trace)))
        finally:
            self.in_body -= 1
            self.ch = self.ch_stack.pop()
            self.st = st0
            self.stack = stack_save
            self.yield_handlers = yh_save
            self.exc_stack = exc_save
            self.constructing = con_save
        return loop, newchanged

    def _preexisting(self, loc, pre):
        if loc[0] == "f":
            return loc[1] in pre.frames
        return loc[1] in pre.heap

    def _loc_type(self, loc, before, after, t2):
        if loc[0] in ("l", "d"):
            return loc[0]
        b = before.get(loc)
        def q(t):
            if t is None:
                return None
            return "none" if t == NONE else ty(t)
        a, b2 = q(t2), q(b)
        num = ("int", "float", "num", "bool")
        if b2 is None or a is None:
            return a or b2 or "unk"
        if a == b2:
            return a
        if a in num and b2 in num:
            return "num"
        if a == "none" and b2 not in ("obj",):
            return b2 + "?"
        if b2 == "none" and a not in ("obj",):
            return a + "?"
        return "unk"

    def get_loc(self, loc):
        if loc[0] == "f":
            fr = self.st.frames.get(loc[1])
            return fr.get(loc[2]) if fr is not None else None
        o = self.st.heap.get(loc[1])
        if o is None:
            return None
        if loc[0] == "l":
            return o.content
        if loc[0] == "a":
            return o.attrs.get(loc[2])
        return None

    def set_loc(self, loc, v):
        if loc[0] == "f":
            if loc[1] in self.st.frames:
                self.st.frames[loc[1]][loc[2]] = v
            return
        o = self.st.heap.get(loc[1])
        if o is None:
            return
        if loc[0] == "l":
            o.content = v
        elif loc[0] == "a":
            o.attrs[loc[2]] = v

    def phi_value(self, lid, loc, tyname, st):
        name = loc[2] if len(loc) > 2 else (st.heap[loc[1]].label or "o%s" % loc[1])
        if loc[0] == "d":
            o = st.heap[loc[1]]
            self.open_dict(o)
            return ("d", o.ver)
        if loc[0] == "l":
            ph = ("phi", lid, str(loc[1:]) + ":" + str(name), "list")
            o = st.heap[loc[1]]
            old = o.content
            p = self.common_proto(old)
            if p is not None:
                self.protos()[ph] = p
            o.content = ph
            return ph
        if tyname in ("obj", "tuple"):
            # an object-valued variable: keep it opaque
            ph = ("phi", lid, str(loc[1]) + ":" + str(name), "unk")
        else:
            ph = ("phi", lid, str(loc[1]) + ":" + str(name), tyname)
        if loc[0] == "f":
            if loc[2] not in st.frames[loc[1]]:
                # not bound before the loop: stays unbound at its start
                return None
            st.frames[loc[1]][loc[2]] = ph
        else:
            if loc[2] in st.heap[loc[1]].attrs:
                st.heap[loc[1]].attrs[loc[2]] = ph
            else:
                return None
        return ph

    def common_proto(self, c):
        if c[0] in ("list",) and len(c) > 1:
            tys = {ty(x) for x in c[1:]}
            if len(tys) == 1 and tys <= {"str", "int", "num", "float"}:
                return tys.pop()
            if tys <= {"int", "num", "float"}:
                return "num"
            return None
        if c[0] == "lcat":
            ps = {self.common_proto(x) for x in c[1:]}
            return ps.pop() if len(ps) == 1 else None
        if c[0] in ("sym", "phi", "elem", "dget", "attr"):
            return self.elem_proto(c)
        if c[0] in ("sorted", "rev", "slice", "lset"):
            return self.common_proto(c[1])
        if c[0] == "lrep":
            return ty(c[1]) if ty(c[1]) in ("str", "int", "num", "float") else None
        return None

    def open_dict(self, o):
        """Forget what a dict contains, keeping how unknown values look."""
        o.ver += 1
        if not o.open and o.proto is None:
            o.proto = self.dict_proto(o)
        o.open = True
        o.pieces = ()
        o.entries = {}
        o.present = set()
        o.absent = set()

    def dict_proto(self, o):
        vals = list(o.entries.values()) + [e[2] for p in o.pieces for e in p[2]]
        tys = {ty(v) for v in vals}
        num = {"int", "float", "num", "bool"}
        if tys and tys <= num:
            return "num"
        if tys == {"str"}:
            return "str"
        return "unk"

    def _solve_exits(self, loop, st0, changed):
        """What each changed location holds after the loop."""
        exits = {}
        paths = [(i, p) for i, p in enumerate(loop.paths) if p.kind == "next"]
        for loc in changed:
            ph = loop.phi.get(loc)
            cur = self.st
            if loc[0] == "d":
                exits[loc] = ("dict", self._dict_pieces(loop, loc, paths))
                continue
            vals = []
            for i, p in paths:
                self.st = p.state
                vals.append((i, self.get_loc(loc)))
            self.st = cur
            init = self.get_loc(loc)
            if loc[0] == "l":
                adds = []
                ok = True
                insorted = False
                for i, v in vals:
                    if v is not None and v[0] == "insorted" and v[1] == ph:
                        insorted = True
                        adds.append((i, (v[2],)))
                        continue
                    a = self._appended(ph, v)
                    if a is None:
                        ok = False
                        break
                    adds.append((i, a))
                if ok:
                    exits[loc] = ("append", ("lmap", loop.id, loop.over, tuple(adds)), insorted)
                else:
                    ex = ("exit", loop.id, str(loc), "list")
                    for v in [ph] + [v for i, v in vals]:
                        pr = self.protos().get(v) if v is not None else None
                        if pr is not None and pr != "unk":
                            self.protos()[ex] = pr
                            break
                    exits[loc] = ("unknown", ex)
                continue
            if ph is None:
                exits[loc] = ("unknown", ("exit", loop.id, str(loc[2]), changed[loc]))
                continue
            deltas = []
            ok = True
            for i, v in vals:
                d = self._delta(ph, v)
                if d is None:
                    ok = False
                    break
                deltas.append((i, d))
            if ok and deltas:
                exits[loc] = ("sum", tuple(deltas))
            else:
                cs = {v for i, v in vals}
                t = changed[loc]
                if t in ("obj", "tuple"):
                    t = "unk"
                exits[loc] = ("unknown", ("exit", loop.id, str(loc[2]), t))
        return exits

    def _appended(self, ph, v):
        if v == ph:
            return ()
        if v is not None and v[0] == "lcat" and v[1] == ph:
            out = []
            for p in v[2:]:
                if p[0] == "list":
                    out.extend(p[1:])
                else:
                    out.append(("splice", p))
            return tuple(out)
        return None

    def _delta(self, ph, v):
        if v is None:
            return None
        if v == ph:
            return const(0)
        if ty(v) not in ("int", "num", "float", "unk", "bool"):
            return None
        try:
            d = canon_num(("sub", v, ph))
        except NotNumeric:
            return None
        if contains(d, ph):
            return None
        return d

    def _dict_pieces(self, loop, loc, paths):
        out = []
        for i, p in paths:
            o = p.state.heap[loc[1]]
            ents = tuple((k, v) for k, v in o.entries.items())
            out.append((i, ents))
        return tuple(out)

    def apply_exits(self, loop, exits, partial=False):
        st = self.st
        for loc, (kind, *rest) in exits.items():
            if loc[0] == "d":
                o = st.heap[loc[1]]
                was_closed = not o.open
                # only insertions with keys that come from the iteration are understood
                alts = rest[0]
                written = set()
                lk_keys = True
                for i, ents in alts:
                    for k, v in ents:
                        written.add(k)
                        if not T.depends_on_loop(k, loop.id):
                            lk_keys = False
                st0o = o
                if was_closed and not o.entries and not o.pieces and not partial:
                    reads_old = any(contains_kind(v, ("dgetph",)) for i, e in alts for k, v in e)
                    p = tuple(("%s" % i, k, v) for i, ents in alts for k, v in ents)
                    o.pieces = ((loop.id, loop.over, p),)
                    o.proto = self.dict_proto(o)
                    o.ver += 1
                    o.open = True
                    o.extra = dict(o.extra or {}, closedpieces=True)
                elif was_closed and not partial and lk_keys:
                    p = tuple(("%s" % i, k, v) for i, ents in alts for k, v in ents)
                    o.pieces = o.pieces + ((loop.id, loop.over, p),)
                    o.proto = self.dict_proto(o)
                    o.open = True
                    o.ver += 1
                    o.extra = dict(o.extra or {}, closedpieces=True)
                else:
                    keep = set(o.present)
                    self.open_dict(o)
                    o.present = keep
                    o.extra = dict(o.extra or {}, closedpieces=False)
                # objects stored by the body paths must exist
                for i, ents in alts:
                    self._adopt(loop.paths[i].state)
                continue
            if kind == "append":
                lm = rest[0]
                cur = self.get_loc(loc)
                if any(a for i, a in lm[3]):
                    for i, a in lm[3]:
                        if a:
                            self._adopt(loop.paths[i].state)
                    if partial:
                        lm = ("lpart",) + lm[1:]
                    c = lcat(cur, self._unsplice(lm))
                    self.set_loc(loc, ("sorted", c) if rest[1] else c)
                continue
            if kind == "sum":
                init = self.get_loc(loc)
                ds = {d for i, d in rest[0]}
                if partial:
                    self.set_loc(loc, ("exit", loop.id, str(loc[2]) + "/part", "num"))
                elif len(ds) == 1:
                    d = ds.pop()
                    if d != const(0):
                        self.set_loc(loc, ("add", init, self.sumover(loop.id, d)))
                else:
                    self.set_loc(loc, ("add", init, ("psum", loop.id, rest[0], "num")))
                continue
            v = rest[0]
            if partial:
                v = v[:2] + (v[2] + "/part",) + v[3:]
            if v[-1] == "none":
                v = v[:-1] + ("unk",)
            self.set_loc(loc, v)

    def sumover(self, lid, d):
        """Sum of d over the iterations of a loop."""
        if d == const(0):
            return d
        loop = self.loops.get(lid)
        if d[0] == "elem" and d[2] == lid and loop is not None and self._base_content(loop.over) == d[1]:
            return ("sum", d[1])
        return ("sumover", lid, d)

    def _base_content(self, c):
        while c[0] in ("sorted", "rev"):
            c = c[1]
        return c

    def _unsplice(self, lm):
        return lm

    def _adopt(self, bst):
        for oid, o in bst.heap.items():
            if oid not in self.st.heap:
                self.st.heap[oid] = o.clone()
        for f, fr in bst.frames.items():
            if f not in self.st.frames:
                self.st.frames[f] = dict(fr)

    # ------------------------------------------------------------ dicts
    def key_rel(self, a, b):
        """True/False/None: are two keys equal."""
        if a == b:
            return True
        at = self.eq_atom_pure(a, b)
        if at is None:
            return None
        if is_const(at):
            return bool(at[1])
        return self.decide(at)

    def eq_atom_pure(self, a, b):
        if a[0] == "tuple" and b[0] == "tuple":
            if len(a) != len(b):
                return FALSE
            res = TRUE
            for x, y in zip(a[1:], b[1:]):
                r = self.key_rel(x, y)
                if r is False:
                    return FALSE
                if r is None:
                    res = None
            return res
        return self.eq_atom(a, b)

    def dict_find(self, t, k):
        """('hit', key) / ('miss',) / ('unknown',) after resolving aliases by splitting."""
        o = self.obj(t)
        if k in o.entries:
            return ("hit", k)
        for ek in list(o.entries):
            r = self.key_rel(ek, k)
            if r is True:
                return ("hit", ek)
            if r is None:
                # two iteration keys of one loop nest, or a symbolic key against another
                at = self.eq_atom(ek, k)
                if self.split(at) if not is_const(at) else at[1]:
                    return ("hit", ek)
        if any(self.key_rel(x, k) is True for x in o.absent):
            return ("miss",)
        if o.pieces:
            for lid, over, ents in o.pieces:
                for pi, pk, pv in ents:
                    sub = self.match_loop_key(pk, k, lid, over)
                    if sub is not None:
                        v = subst(pv, sub)
                        o.entries[k] = v
                        return ("hit", k)
        if not o.open:
            return ("miss",)
        if any(self.key_rel(x, k) is True for x in o.present):
            self.mat_entry(t, k, o.ver)
            return ("hit", k)
        j = (o.extra or {}).get("joint")
        if j is not None:
            if j.lookup(self, t, o, k):
                o.present.add(k)
                self.mat_entry(t, k, o.ver)
                self.st.facts.log.append((("haskey", o.label or "dict", k), True))
                return ("hit", k)
            o.absent.add(k)
            self.st.facts.log.append((("haskey", o.label or "dict", k), False))
            return ("miss",)
        return ("unknown",)

    def mat_entry(self, t, k, ver):
        o = self.obj(t)
        v = self.materialise(t, k, ver)
        o.entries[k] = o.mat[k] = v
        return v

    def match_loop_key(self, pk, k, lid, over):
        if pk[0] == "lk" and k[0] == "lk":
            l2 = self.loops.get(k[1])
            if l2 is not None and same_keys(l2.over, over):
                return {pk: k}
        return None

    def materialise(self, t, k, ver):
        o = self.obj(t)
        p = o.proto
        if p is None:
            p = "unk"
        if isinstance(p, str):
            return ("dget", t[1], ver, k, p, o.label or "dict")
        return p(self, t, k, ver)

    def dict_get(self, t, k, node, missing="raise", default=None):
        r = self.dict_find(t, k)
        o = self.obj(t)
        if r[0] == "hit":
            return o.entries[r[1]]
        if r[0] == "unknown":
            kd = "key" in self.cfg.hazards and missing == "raise"
            derived = contains_kind(k, ("lk",)) or k[0] in ("elem", "phi")
            if missing == "raise" and derived:
                # a key taken from another collection: their relation is not tracked
                present = True
            elif missing == "raise" and not kd:
                present = True
            else:
                present = self.choose(2) == 0
            if present:
                o.present.add(k)
                return self.mat_entry(t, k, o.ver)
            o.absent.add(k)
        if missing == "raise":
            if o.extra and o.extra.get("default") is not None:
                v = self.call(o.extra["default"], [], {}, node)
                self.dict_set(t, k, v, node)
                return v
            self.raise_("KeyError", node, "key %s may be missing from %s" % (show(k), o.label or "a dict"))
        return default

    def dict_has(self, t, k, node):
        r = self.dict_find(t, k)
        if r[0] == "hit":
            return True
        if r[0] == "miss":
            return False
        o = self.obj(t)
        if self.choose(2) == 0:
            o.present.add(k)
            self.mat_entry(t, k, o.ver)
            self.st.facts.log.append((("haskey", o.label or "dict", k), True))
            return True
        o.absent.add(k)
        self.st.facts.log.append((("haskey", o.label or "dict", k), False))
        return False

    def dict_set(self, t, k, v, node, quiet=False):
        r = self.dict_find(t, k)
        o = self.obj(t)
        old = None
        new_key = None
        if r[0] == "hit":
            old = o.entries[r[1]]
            o.entries[r[1]] = v
            new_key = False
        else:
            o.entries[k] = v
            new_key = True if r[0] == "miss" else None
            for x in list(o.absent):
                if self.key_rel(x, k) is True:
                    o.absent.discard(x)
        if o.open:
            o.present.add(k)
        if o.label:
            self.label_value(v, o.label + "[]")
        if not quiet:
            self.event("write", "item", [t, k, old if old is not None else ("absent",), v], node=node,
                       extra={"label": o.label, "new_key": new_key})

    def label_value(self, v, label, depth=0):
        if v[0] == "tuple" and depth < 8:
            for i, x in enumerate(v[1:]):
                self.label_value(x, "%s(%d)" % (label, i), depth + 1)
            return
        if v[0] == "obj" and v[1] in self.st.heap:
            o = self.st.heap[v[1]]
            if o.label is None:
                o.label = label
                if depth > 8:
                    return
                for a, x in o.attrs.items():
                    if isinstance(x, tuple):
                        self.label_value(x, "%s.%s" % (label, a), depth + 1)
                for x in o.entries.values():
                    self.label_value(x, label + "[]", depth + 1)
                if o.content is not None and o.content[0] == "list":
                    for x in o.content[1:]:
                        self.label_value(x, label + "[]", depth + 1)

    def dict_segments(self, t, what, ver, live=None):
        o = self.obj(t)
        segs = []
        if o.entries and not o.open or (o.entries and (o.extra or {}).get("closedpieces")):
            elems = []
            pk = [e[1] for p in o.pieces for e in p[2]]
            for k in list(o.entries):
                if k[0] == "lk":
                    continue
                elems.append(self._entry_getter(t, k, what))
            if elems:
                segs.append(("closed", elems))
        if (o.extra or {}).get("closedpieces") and o.pieces:
            for lid, over, ents in o.pieces:
                segs.append(self.piece_segment(t, lid, over, ents, what, live))
            return segs
        if o.open:
            label = o.label

            def factory(loop, t=t, ver=ver):
                ob = self.obj(t)
                k = ("lk", loop.id, ob.keyty)
                fresh_entry = k not in ob.entries
                ob.present.add(k)
                if k not in ob.entries:
                    self.mat_entry(t, k, min(ver, ob.ver) if ob.proto is None or isinstance(ob.proto, str) else ob.ver)
                v = ob.entries[k]
                if what == "keys":
                    return k
                if what == "values":
                    return v
                return ("tuple", k, v)
            segs.append(("open", ("keys" if what == "keys" else what, t[1], ver, label or "dict"), factory, live))
        return segs

    def _entry_getter(self, t, k, what):
        o = self.obj(t)
        v = o.entries[k]
        if what == "keys":
            return k
        if what == "values":
            return v
        return ("tuple", k, v)

    def piece_segment(self, t, lid, over, ents, what, live):
        src = self.loops[lid]

        def factory(loop):
            j = self.choose(len(ents)) if len(ents) > 1 else 0
            pi, k, v = ents[j]
            p = src.paths[int(pi)]
            for a, val in p.facts:
                self.assume(a, val)
            self._adopt(p.state)
            ob = self.obj(t)
            cur = ob.entries.get(k)
            if cur is not None:
                v = cur
            else:
                ob.entries[k] = v
            if what == "keys":
                return k
            if what == "values":
                return v
            return ("tuple", k, v)
        return ("open", ("lmapd", lid, over), factory, live)

    # ------------------------------------------------------------ lists
    def len_of(self, t):
        if t[0] == "obj":
            o = self.obj(t)
            if self.len_asked is not None:
                self.len_asked.add(t[1])
            if o.kind in ("list", "deque", "set"):
                return self.clen(o.content)
            if o.kind == "dict":
                n = const(len([k for k in o.entries if k[0] != "lk"])) if not o.open else None
                if n is not None:
                    return n
                return ("len", ("keys", t[1], o.ver, o.label or "dict"))
            m = self.class_lookup(o.cls, "__len__") if o.kind == "inst" else None
            if m is not None:
                return self.call(self.getattr(t, "__len__", None), [], {}, None)
            raise Undecided("len of an object")
        if t[0] == "tuple":
            return const(len(t) - 1)
        if is_const(t):
            if isinstance(t[1], str):
                return const(len(t[1]))
            self.raise_("TypeError", None, "len() of %s" % show(t))
        return self.clen(t)

    def clen(self, c):
        k = c[0]
        if k in ("list", "setc"):
            return const(len(c) - 1)
        if k == "lcat":
            r = const(0)
            for p in c[1:]:
                r = ("add", r, self.clen(p))
            return r
        if k in ("sorted", "rev", "lset"):
            return self.clen(c[1])
        if k == "lrep":
            return c[2]
        if k == "rangel":
            return c[1]
        if k == "lmap":
            ns = {len(a) for i, a in c[3]}
            if len(ns) == 1 and not any(x[0] == "splice" for i, a in c[3] for x in a):
                n = ns.pop()
                return ("mul", const(n), self.clen_over(c[2]))
            return ("len", c)
        if k == "values" or k == "items":
            return ("len", ("keys",) + c[1:])
        if k in ("insorted", "linsert"):
            return ("add", self.clen(c[1]), const(1))
        if k == "lpop":
            return ("sub", self.clen(c[1]), const(1))
        if k == "sortedk":
            return self.clen(c[1])
        if k == "rangel2":
            return ("sub", c[2], c[1])
        if k == "setof":
            return ("len", c)
        if k == "slice":
            return self.slice_len(c)
        return ("len", c)

    def clen_over(self, over):
        if over[0] == "while":
            return ("count", over[1])
        return self.clen(over)

    def slice_len(self, c):
        _, base, lo, hi, step = c
        n = self.clen(base)
        if step != NONE:
            return ("len", c)
        if lo == NONE and hi != NONE and hi[0] != "c":
            # base[:i] with 0 <= i <= len(base)
            if self.decide(self.lt0(hi)) is False and self.decide(self.lt0(("sub", n, hi))) is False:
                return hi
        return ("len", c)

    def item(self, c, i, node, hazard=True):
        """Element i of a list content."""
        k = c[0]
        if is_const(i) and isinstance(i[1], bool):
            i = const(int(i[1]))
        if k in ("list",):
            n = len(c) - 1
            if is_const(i):
                if not isinstance(i[1], int):
                    self.raise_("TypeError", node, "list index is not an integer")
                j = i[1] + n if i[1] < 0 else i[1]
                if 0 <= j < n:
                    return c[1 + j]
                self.raise_("IndexError", node, "index %d of a sequence of %d" % (i[1], n))
            return self.item_sym(c, i, node)
        if k == "lrep" and hazard is False:
            return c[1]
        if k == "lcat" and is_const(i) and i[1] >= 0 and c[1][0] == "list" and i[1] < len(c[1]) - 1:
            return c[1][1 + i[1]]
        if k == "lcat" and is_const(i) and i[1] < 0 and c[-1][0] == "list" and -i[1] <= len(c[-1]) - 1:
            return c[-1][len(c[-1]) + i[1]]
        if i[0] == "lidx":
            l = self.loops.get(i[1])
            if l is not None and l.over[0] == "rangel" and canon(l.over[1]) == canon(self.clen(c)):
                if c[0] == "lrep":
                    return c[1]
                p = self.elem_proto(c)
                return ("elem", c, i[1], p if isinstance(p, str) else self.elem_type(c))
        n = self.clen(c)
        if is_const(i):
            # inside?
            if i[1] >= 0:
                a = self.lt0(("sub", ("sub", i, n), const(-0)))
            else:
                a = self.not_(self.lt0(("add", n, i)))
            self.index_check(a, c, i, node, hazard)
            if c[0] == "rangel" and i[1] >= 0:
                return i
            p = self.elem_proto(c)
            if callable(p):
                return p(self, ("item", c, i))
            return self.typed_item(c, i)
        return self.item_sym(c, i, node, hazard)

    def index_check(self, a, c, i, node, hazard):
        if is_const(a):
            if not a[1]:
                self.raise_("IndexError", node, "index %s of %s" % (show(i), show(c)))
            return
        r = self.decide(a)
        if r is False:
            self.raise_("IndexError", node, "index %s of %s" % (show(i), show(c)))
        if r is None and hazard and "index" in self.cfg.hazards and not self.loading and self.index_source(c):
            if not self.split(a):
                self.raise_("IndexError", node, "index %s may be outside %s" % (show(i), show(c)))
        elif r is None:
            self.assume(a, True)

    def index_source(self, c):
        """Contents whose length is known to be arbitrary."""
        return c[0] in ("split", "rsplit", "splitlines") or (c[0] == "sym") or (
            c[0] in ("sorted", "rev") and self.index_source(c[1]))

    def item_sym(self, c, i, node, hazard=True):
        if c[0] == "lrep":
            return c[1]
        return self.typed_item(c, i)

    def typed_item(self, c, i):
        et = self.elem_type(c)
        if et == "unk":
            p = self.common_proto(c)
            if isinstance(p, str):
                et = p
        if et == "unk":
            return ("item", c, i)
        return ("sym", "#item", ("item", c, i), et) if False else ("itemt", c, i, et)

    # ------------------------------------------------------------ attributes
    def mro(self, q):
        c = self.classes.get(q)
        if c is None:
            return []
        if not hasattr(c, "_mro"):
            out = [c]
            rest = []
            for b in c.bases:
                if b[0] == "cls":
                    rest.append(self.mro(b[1]))
                else:
                    rest.append([b])
            # dedupe keeping the last occurrence
            flat = [x for r in rest for x in r]
            seen, keep = set(), []
            for x in reversed(flat):
                kx = x.q if isinstance(x, Class) else x
                if kx in seen:
                    continue
                seen.add(kx)
                keep.append(x)
            c._mro = out + list(reversed(keep))
        return c._mro

    def class_lookup(self, q, name):
        xs = self.st.xattrs if self.st is not None else None
        for c in self.mro(q):
            if isinstance(c, Class):
                if xs and "cls:%s.%s" % (c.q, name) in xs:
                    return xs["cls:%s.%s" % (c.q, name)]
                if name in c.dict:
                    return c.dict[name]
        return None

    def external_bases(self, q):
        return [b for b in self.mro(q) if not isinstance(b, Class) and
                b[1] not in ("builtin.object", "object", "zope.interface.Interface")]

    def bind(self, v, owner, cls):
        if v[0] == "fn":
            return ("bm", owner, v)
        if v[0] == "property":
            return self.call(v[1], [owner], {}, None)
        if v[0] == "classmethod":
            return ("bm", ("cls", cls), v[1])
        if v[0] == "staticmethod":
            return v[1]
        return v

    def getattr(self, o, name, node, default=None):
        k = o[0]
        if k == "obj":
            ob = self.obj(o)
            if ob.kind == "inst":
                if name in ob.attrs:
                    return ob.attrs[name]
                if name == "__class__":
                    return ("cls", ob.cls)
                if name == "__dict__":
                    raise Undecided("__dict__")
                v = self.class_lookup(ob.cls, name)
                if v is not None:
                    return self.bind(v, o, ob.cls)
                if ob.extra and callable(ob.extra.get("attr_proto")):
                    r = ob.extra["attr_proto"](self, o, name)
                    if r is not None:
                        ob.attrs[name] = r
                        return r
                ext = self.external_bases(ob.cls)
                if ext and not name.startswith("__"):
                    return self.bm.inherited_attr(o, ob, ext, name, node)
                if default is not None:
                    return default
                ga = self.class_lookup(ob.cls, "__getattr__")
                if ga is not None:
                    return self.call(("bm", o, ga), [const(name)], {}, node)
                if ob.cls.startswith("stubs.") and not name.startswith("_"):
                    raise Undecided("the model %s has no %s" % (ob.cls, name))
                self.raise_("AttributeError", node, "%s has no attribute %s" % (ob.cls, name))
            known = {"dict": dict, "list": list, "set": set}.get(ob.kind)
            if known is not None and not hasattr(known, name) and name not in PY2_ATTRS:
                if default is not None:
                    return default
                self.raise_("AttributeError", node, "%s has no attribute %s" % (ob.kind, name))
            return ("meth", o, name)
        if k == "cls":
            v = self.class_lookup(o[1], name)
            if v is not None:
                if v[0] == "classmethod":
                    return ("bm", o, v[1])
                if v[0] == "staticmethod":
                    return v[1]
                return v
            if name == "__name__":
                return const(o[1].rsplit(".", 1)[1])
            if name == "__bases__":
                return ("tuple",) + (tuple(self.classes[o[1]].bases) or (("x", "builtin.object"),))
            if name == "__dict__":
                return self.new_dict([(const(x), v) for x, v in self.classes[o[1]].dict.items()])
            ext = self.external_bases(o[1])
            if ext:
                return ("x", ext[0][1] + "." + name)
            if default is not None:
                return default
            self.raise_("AttributeError", node, "class %s has no attribute %s" % (o[1], name))
        if name == "__dict__" and o == ("x", "builtin.object"):
            return self.new_dict([])
        if name == "__bases__" and k == "x" and o[1].startswith("builtin."):
            return ("tuple",) if o[1] == "builtin.object" else ("tuple", ("x", "builtin.object"))
        if k == "mod":
            g = self.modules[o[1]]
            if "mod:%s.%s" % (o[1], name) in self.st.xattrs:
                return self.st.xattrs["mod:%s.%s" % (o[1], name)]
            if name in g:
                return g[name]
            sub = o[1] + "." + name
            if self.program.has(sub):
                self.module(sub)
                return ("mod", sub)
            if default is not None:
                return default
            self.raise_("AttributeError", node, "module %s has no attribute %s" % (o[1], name))
        if k == "super":
            return self.super_attr(o, name, node)
        if k == "x":
            if o[1] + "." + name in self.st.xattrs:
                return self.st.xattrs[o[1] + "." + name]
            if default is not None and name not in self.bm.known_attrs(o[1]):
                r = self.bm.ext_hasattr(o, name)
                if r is False:
                    return default
            return self.bm.external(o[1] + "." + name)
        if k == "exc":
            if name in ("args", "message"):
                return ("attr", o, name)
            return ("attr", o, name)
        if o == NONE:
            if default is not None:
                return default
            self.raise_("AttributeError", node, "attribute %s of None" % name)
        if k == "fn" or k == "bm":
            f = self.fns[o[1]] if k == "fn" else (self.fns[o[2][1]] if o[2][0] == "fn" else None)
            if f is not None and name in ("func_name", "__name__"):
                return const(f.name)
            if f is not None and name in f.extra:
                return f.extra[name]
            if k == "bm" and name in ("im_self", "__self__"):
                return o[1]
            if name == "__doc__":
                return ("attr", o, name)
            if default is not None:
                return default
            return ("attr", o, name)
        if k == "partial":
            if name == "func":
                return o[1]
            if name in ("func_name", "__name__"):
                self.raise_("AttributeError", node, "partial has no %s" % name)
            return ("attr", o, name)
        if k in ("lambda",):
            return ("attr", o, name)
        # opaque values
        if nullable(o):
            at = ("isnone", o)
            r = self.decide(at)
            if r is True:
                if default is not None:
                    return default
                self.raise_("AttributeError", node, "attribute %s of %s, which is None" % (name, show(o)))
            if r is None and k in ("sym", "rematch", "dget", "dgetq") and (k == "rematch" or o[-1] != "unk") \
                    and "none" in self.cfg.hazards and default is None:
                if self.split(at):
                    self.raise_("AttributeError", node, "attribute %s of %s, which may be None" % (name, show(o)))
        if k == "regex" or k == "rematch" or k == "group":
            return ("meth", o, name)
        y = ty(o)
        if k == "tuple":
            fields = self.cfg.fields.get(o)
            if fields is not None and name in fields:
                return o[1 + fields.index(name)]
            if fields is not None and name == "_fields":
                return ("tuple",) + tuple(const(x) for x in fields)
            if not hasattr((), name) and not (fields is not None and name in ("_asdict", "_replace")):
                if default is not None:
                    return default
                self.raise_("AttributeError", node, "tuple has no attribute %s" % name)
        if y in ("str", "list", "tuple") or is_const(o):
            return ("meth", o, name)
        if k in ("gen", "dlive", "iter"):
            return ("meth", o, name)
        if y in ("int", "float", "num", "bool") and not nullable(o) and not hasattr(1, name) and not hasattr(1.0, name):
            if default is not None:
                return default
            self.raise_("AttributeError", node, "number has no attribute %s" % name)
        if default is not None:
            at = ("hasattr", o, const(name))
            if not self.split(at):
                return default
        r = self.bm.opaque_attr(o, name)
        if r is not None:
            return r
        return ("attr", o, name)

    def super_attr(self, o, name, node):
        _, q, selfv = o
        if self.isobj(selfv, "inst"):
            m = self.mro(self.obj(selfv).cls)
        elif selfv[0] == "cls":
            m = self.mro(selfv[1])
        else:
            raise Undecided("super of an opaque object")
        i = [j for j, c in enumerate(m) if isinstance(c, Class) and c.q == q]
        if not i:
            raise Undecided("super of a class outside the mro")
        for c in m[i[0] + 1:]:
            if isinstance(c, Class):
                if name in c.dict:
                    return self.bind(c.dict[name], selfv, c.q)
            elif c[1] in ("builtin.object", "object"):
                return ("x", "builtin.object." + name)
            else:
                return ("bm", selfv, ("x", c[1] + "." + name))
        raise Undecided("super().%s" % name)

    def setattr(self, o, name, v, node):
        if self.isobj(o, "inst"):
            ob = self.obj(o)
            cv = self.class_lookup(ob.cls, name)
            if cv is not None and cv[0] == "property":
                raise Undecided("assignment to a property")
            old = ob.attrs.get(name, ("absent",))
            ob.attrs[name] = v
            if ob.label:
                self.label_value(v, ob.label + "." + name)
            self.event("write", "attr", [o, const(name), old, v], node=node,
                       extra={"label": (ob.label or ob.cls.split(".")[-1]) + "." + name,
                              "init": o[1] in self.constructing, "cls": ob.cls, "rawold": old})
            return
        if o[0] in ("fn",):
            self.fns[o[1]].extra[name] = v
            return
        if o[0] == "cls":
            if self.loading:
                self.classes[o[1]].dict[name] = v
                return
            self.event("write", "attr", [o, const(name), ("absent",), v], node=node, extra={"label": o[1] + "." + name})
            self.set_static("cls:%s.%s" % (o[1], name), v)
            return
        if o == NONE:
            self.raise_("AttributeError", node, "attribute %s of None" % name)
        if o[0] == "x":
            self.st.xattrs[o[1] + "." + name] = v
        self.event("write", "attr", [o, const(name), ("absent",), v], node=node, extra={"label": show(o) + "." + name})

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fid):
        k = t._
        if k == "Name":
            g = None
            if not isinstance(fid, tuple):
                fr = self.st.frames[fid]
                if t.id in fr.get("#globals", ()):
                    f = fid
                    while not isinstance(f, tuple) and f is not None:
                        f = self.st.frames[f]["#up"]
                    if not isinstance(f, tuple) or f[0] != "g":
                        raise Undecided("global statement")
                    fid = f
            self.fset(fid, t.id, v)
        elif k == "Attribute":
            self.setattr(self.ev(t.value, fid), t.attr, v, t)
        elif k == "Subscript":
            o = self.ev(t.value, fid)
            if t.slice._ == "Index":
                self.setitem(o, self.ev(t.slice.value, fid), v, t)
            elif t.slice._ == "Slice":
                lo = self.ev(t.slice.lower, fid) if t.slice.lower else NONE
                hi = self.ev(t.slice.upper, fid) if t.slice.upper else NONE
                self.bm.list_setslice(o, lo, hi, v, t)
            else:
                raise Undecided("extended slice")
        elif k in ("Tuple", "List"):
            vs = self.unpack(v, len(t.elts), t)
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fid)
        else:
            raise Undecided("assignment to %s" % k)

    def unpack(self, v, n, node):
        if v[0] == "tuple":
            if len(v) - 1 != n:
                self.raise_("ValueError", node, "unpacking %d values into %d" % (len(v) - 1, n))
            return list(v[1:])
        c = self.content_of(v)
        if v[0] == "gen" or (v[0] == "obj" and c is None):
            lst = self.bm.to_list(v, node)
            c = self.obj(lst).content
        if c is None or c == NONE:
            self.raise_("TypeError", node, "unpacking None")
        if c[0] == "list":
            if len(c) - 1 != n:
                self.raise_("ValueError", node, "unpacking %d values into %d" % (len(c) - 1, n))
            return list(c[1:])
        if is_const(c) and isinstance(c[1], str):
            if len(c[1]) != n:
                self.raise_("ValueError", node, "unpacking a string")
            return [const(x) for x in c[1]]
        y = ty(c)
        if y in ("int", "float", "bool"):
            self.raise_("TypeError", node, "unpacking a number")
        at = self.eq0(("sub", self.clen(c) if y == "list" else ("len", c), const(n)))
        if is_const(at):
            r = bool(at[1])
        else:
            r = self.decide(at)
        if r is False:
            self.raise_("ValueError", node, "unpacking %s into %d values" % (show(c), n))
        if r is None:
            if "unpack" in self.cfg.hazards and self.index_source(c) and not self.loading:
                if not self.split(at):
                    self.raise_("ValueError", node, "%s may not have %d elements" % (show(c), n))
            else:
                self.assume(at, True)
        if y == "list" or c[0] in ("sym", "split"):
            return [self.item(c, const(i), node, hazard=False) for i in range(n)]
        return [self.bm.opaque_item(c, i) for i in range(n)]

    # ------------------------------------------------------------ items
    def getitem(self, o, i, node):
        if o[0] == "obj":
            ob = self.obj(o)
            if ob.kind == "dict":
                return self.dict_get(o, i, node)
            if ob.kind in ("list", "deque"):
                v = self.item(ob.content, i, node)
                return v
            if ob.kind == "inst":
                m = self.class_lookup(ob.cls, "__getitem__")
                if m is not None:
                    return self.call(self.getattr(o, "__getitem__", node), [i], {}, node)
                if self.external_bases(ob.cls):
                    return self.bm.ext_getitem(o, ob, i, node)
                self.raise_("TypeError", node, "%s is not subscriptable" % ob.cls)
            raise Undecided("subscript of %s" % ob.kind)
        if o[0] == "tuple":
            return self.item(("list",) + o[1:], i, node)
        if o == NONE:
            self.raise_("TypeError", node, "subscript of None")
        if is_const(o) and isinstance(o[1], str):
            if is_const(i) and isinstance(i[1], int):
                try:
                    return const(o[1][i[1]])
                except IndexError:
                    self.raise_("IndexError", node, "string index")
            return ("sitem", o, i)
        if ty(o) == "str":
            if is_const(i) and isinstance(i[1], int):
                a = self.truth_atom(o) if i[1] in (0, -1) else None
                if a is not None and not is_const(a):
                    r = self.decide(a)
                    if r is False:
                        self.raise_("IndexError", node, "first or last character of an empty string")
                    if r is None and "strindex" in self.cfg.hazards:
                        if not self.split(a):
                            self.raise_("IndexError", node, "first or last character of %s, which may be empty" % show(o))
                if o[0] == "cat" and i[1] == -1 and o[-1][0] == "c":
                    return const(o[-1][1][-1])
                if o[0] == "cat" and i[1] == 0 and o[1][0] == "c":
                    return const(o[1][1][0])
            return ("sitem", o, i)
        if ty(o) == "list":
            return self.item(o, i, node)
        if o[0] == "rematch":
            return self.bm.mgroup(o, i)
        if o[0] == "x" or o[0] in ("sym", "attr", "ret", "elem", "item", "itemt", "dget", "unk", "exit", "phi"):
            return self.bm.opaque_getitem(o, i, node)
        if ty(o) in ("int", "float", "num", "bool"):
            self.raise_("TypeError", node, "subscript of a number")
        raise Undecided("subscript of %s" % show(o)[:80])

    def getslice(self, o, lo, hi, step, node):
        c = o
        if o[0] == "obj":
            ob = self.obj(o)
            if ob.kind not in ("list",):
                raise Undecided("slice of %s" % ob.kind)
            c = ob.content
        cl = [x if is_const(x) else None for x in (lo, hi, step)]
        if c[0] in ("list", "tuple") and all(x is not None for x in cl):
            el = list(c[1:])[slice(lo[1], hi[1], step[1])]
            if c[0] == "tuple":
                return ("tuple",) + tuple(el)
            return self.new_list(el)
        if is_const(c) and isinstance(c[1], str) and all(x is not None for x in cl):
            return const(c[1][slice(lo[1], hi[1], step[1])])
        if c == NONE:
            self.raise_("TypeError", node, "slice of None")
        if ty(c) == "str":
            return self.bm.str_slice(c, lo, hi, step)
        if lo == NONE and hi == NONE and step == NONE:
            if ty(c) == "list":
                return self.new_list(content=c)
        if c[0] in ("list", "tuple"):
            c = ("list",) + c[1:]
        if ty(c) == "list" or ty(c) == "unk":
            if c[0] in ("split", "lcat") and step == NONE and all(is_const(x) for x in (lo, hi)):
                r = self.bm.slice_known(self, c, lo, hi)
                if r is not None:
                    return self.new_list(content=r)
            return self.new_list(content=("slice", c, lo, hi, step))
        raise Undecided("slice of %s" % show(c)[:60])

    def setitem(self, o, i, v, node):
        if o[0] == "obj":
            ob = self.obj(o)
            if ob.kind == "dict":
                return self.dict_set(o, i, v, node)
            if ob.kind in ("list", "deque"):
                c = ob.content
                old = ("absent",)
                if c[0] == "list" and is_const(i):
                    n = len(c) - 1
                    j = i[1] + n if i[1] < 0 else i[1]
                    if not 0 <= j < n:
                        self.raise_("IndexError", node, "assignment to index %d of a list of %d" % (i[1], n))
                    old = c[1 + j]
                    ob.content = c[:1 + j] + (v,) + c[2 + j:]
                else:
                    n = self.clen(c)
                    # an index that may be outside
                    if i[0] == "lidx" and self.loops.get(i[1]) is not None and \
                            self.loops[i[1]].over[0] == "rangel" and canon(self.loops[i[1]].over[1]) == canon(n):
                        pass
                    else:
                        up = self.lt0(("sub", i, n))
                        r = bool(up[1]) if is_const(up) else self.decide(up)
                        if r is False:
                            self.raise_("IndexError", node, "assignment to index %s of %s" % (show(i), show(c)))
                        if r is None and "setindex" in self.cfg.hazards:
                            if not self.split(up):
                                self.raise_("IndexError", node, "assignment to index %s of a list of %s" % (show(i), show(n)))
                    old = ("itemt", c, i, "unk")
                    ob.content = ("lset", c, i, v)
                self.event("write", "listitem", [o, i, old, v], node=node, extra={"label": ob.label})
                return
            if ob.kind == "inst":
                m = self.class_lookup(ob.cls, "__setitem__")
                if m is not None:
                    return self.call(self.getattr(o, "__setitem__", node), [i, v], {}, node)
                if self.external_bases(ob.cls):
                    return self.bm.ext_setitem(o, ob, i, v, node)
            raise Undecided("item assignment to %s" % ob.kind)
        if o == NONE or o[0] == "tuple" or ty(o) in ("str", "int", "float"):
            self.raise_("TypeError", node, "item assignment to %s" % show(o)[:40])
        self.event("write", "item", [o, i, ("absent",), v], node=node, extra={"label": show(o)[:60], "new_key": None})

    def delitem(self, o, i, node):
        if self.isobj(o, "dict"):
            r = self.dict_find(o, i)
            ob = self.obj(o)
            if r[0] == "hit":
                old = ob.entries.pop(r[1])
                ob.present.discard(r[1])
                ob.absent.add(i)
                self.event("write", "delitem", [o, i, old], node=node, extra={"label": ob.label})
                return
            if r[0] == "miss":
                self.raise_("KeyError", node, "del of a missing key %s" % show(i))
            if not (contains_kind(i, ("lk",)) or i[0] in ("elem", "phi")) and "key" in self.cfg.hazards and self.choose(2) == 1:
                self.raise_("KeyError", node, "del of key %s, which may be missing" % show(i))
            ob.absent.add(i)
            self.event("write", "delitem", [o, i, ("absent",)], node=node, extra={"label": ob.label})
            return
        if self.isobj(o, "list", "deque"):
            ob = self.obj(o)
            c = ob.content
            if c[0] == "list" and is_const(i):
                n = len(c) - 1
                j = i[1] + n if i[1] < 0 else i[1]
                if not 0 <= j < n:
                    self.raise_("IndexError", node, "del index")
                ob.content = c[:1 + j] + c[2 + j:]
            else:
                ob.content = ("lpop", c, i)
            self.event("write", "listdel", [o, i], node=node, extra={"label": ob.label})
            return
        if o[0] in ("sym", "ret", "attr", "x"):
            self.event("write", "delitem", [o, i, ("absent",)], node=node, extra={"label": show(o)[:60]})
            return
        raise Undecided("del item")

    # ------------------------------------------------------------ expressions
    def ev(self, n, fid):
        m = getattr(self, "e_" + n._, None)
        if m is None:
            raise Undecided("expression %s" % n._)
        return m(n, fid)

    def ev_cond(self, n, fid):
        return self.ev(n, fid)

    def e_Num(self, n, fid):
        if isinstance(n.n, Node):
            raise Undecided("complex")
        return const(n.n)

    def e_Str(self, n, fid):
        return const(n.s)

    def e_Name(self, n, fid):
        if n.id == "None":
            return NONE
        if n.id == "True":
            return TRUE
        if n.id == "False":
            return FALSE
        return self.load_name(n.id, fid, n)

    def e_Tuple(self, n, fid):
        return ("tuple",) + tuple(self.ev(e, fid) for e in n.elts)

    def e_List(self, n, fid):
        return self.new_list([self.ev(e, fid) for e in n.elts])

    def e_Set(self, n, fid):
        o = Obj("set")
        o.content = ("list",) + tuple(self.ev(e, fid) for e in n.elts)
        return self.alloc(o)

    def e_Dict(self, n, fid):
        return self.new_dict([(self.ev(k, fid), self.ev(v, fid)) for k, v in zip(n.keys, n.values)])

    def e_Repr(self, n, fid):
        return ("repr", self.ev(n.value, fid))

    def e_Lambda(self, n, fid):
        return self.make_function(n, fid, "<lambda>")

    def e_IfExp(self, n, fid):
        if self.test(self.ev(n.test, fid)):
            return self.ev(n.body, fid)
        return self.ev(n.orelse, fid)

    def e_BoolOp(self, n, fid):
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, fid)
            if i == len(n.values) - 1:
                return v
            t = self.test(v)
            if n.op._ == "And" and not t:
                return v if not (v[0] in BOOL_OPS) else FALSE
            if n.op._ == "Or" and t:
                return v if not (v[0] in BOOL_OPS) else TRUE
        return v

    def e_UnaryOp(self, n, fid):
        v = self.ev(n.operand, fid)
        op = n.op._
        if op == "Not":
            a = self.truth_atom(v)
            return self.not_(a)
        if op == "USub":
            if is_const(v):
                return const(-v[1])
            return ("neg", v)
        if op == "UAdd":
            return v
        return ("invert", v)

    def e_BinOp(self, n, fid):
        a = self.ev(n.left, fid)
        b = self.ev(n.right, fid)
        return self.binop(n.op._, a, b, n)

    def binop(self, op, a, b, n):
        return self.bm.binop(op, a, b, n)

    def e_Compare(self, n, fid):
        left = self.ev(n.left, fid)
        res = None
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, fid)
            res = self.compare(op._, left, right, n)
            if i < len(n.ops) - 1:
                if not self.test(res):
                    return FALSE
            left = right
        return res

    def compare(self, op, a, b, n):
        if op == "Eq":
            return self.eq_atom(a, b)
        if op == "NotEq":
            return self.not_(self.eq_atom(a, b))
        if op in ("Is", "IsNot"):
            if b == NONE or a == NONE:
                r = self.eq_atom(a, b)
            elif a == b:
                r = TRUE
            elif a[0] in ("c", "obj", "cls", "x", "fn") and b[0] in ("c", "obj", "cls", "x", "fn"):
                r = FALSE if a != b else TRUE
            else:
                r = self.eq_atom(a, b)
            return r if op == "Is" else self.not_(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a, n)
            return r if op == "In" else self.not_(r)
        if is_const(a) and is_const(b):
            x, y = a[1], b[1]
            try:
                r = {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y}[op]()
                return TRUE if r else FALSE
            except TypeError:
                if x is None:      # None sorts first in Python 2
                    return TRUE if op in ("Lt", "LtE") else FALSE
                if y is None:
                    return FALSE if op in ("Lt", "LtE") else TRUE
                raise Undecided("comparison of constants")
        if self.cfg.exact_order and a[0] in ("tuple", "obj") and b[0] in ("tuple", "obj"):
            import order
            x, y = (b, a) if op in ("Gt", "LtE") else (a, b)
            r = order.less(self, x, y, n)
            return TRUE if r == (op in ("Lt", "Gt")) else FALSE
        if a[0] == "tuple" and b[0] == "tuple":
            if all(is_const(x) for x in b[1:]) and all(is_const(x) for x in a[1:]):
                x, y = [q[1] for q in a[1:]], [q[1] for q in b[1:]]
                r = {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
                return TRUE if r else FALSE
            return ("unk", self.fresh())
        if self.isobj(a) or self.isobj(b):
            return ("unk", self.fresh())
        if ty(a) == "str" or ty(b) == "str" or a[0] == "tuple" or b[0] == "tuple":
            return ("slt", op, a, b)
        if op == "Lt":
            return self.lt0(("sub", a, b))
        if op == "Gt":
            return self.lt0(("sub", b, a))
        if op == "LtE":
            return self.not_(self.lt0(("sub", b, a)))
        return self.not_(self.lt0(("sub", a, b)))

    def contains(self, c, x, n):
        """Atom for x in c."""
        if c[0] == "obj":
            o = self.obj(c)
            if o.kind == "dict":
                return TRUE if self.dict_has(c, x, n) else FALSE
            if o.kind in ("list", "set", "deque"):
                return self.contains_content(o.content, x, n)
            if o.kind == "inst":
                m = self.class_lookup(o.cls, "__contains__")
                if m is not None:
                    return self.call(self.getattr(c, "__contains__", n), [x], {}, n)
                if self.external_bases(o.cls):
                    return ("in", x, c)
            raise Undecided("in")
        if c[0] == "tuple":
            return self.contains_content(("list",) + c[1:], x, n)
        if is_const(c) and isinstance(c[1], str) and is_const(x):
            return TRUE if x[1] in c[1] else FALSE
        if c == NONE:
            self.raise_("TypeError", n, "in None")
        if self.cfg.alphabet and is_const(x) and isinstance(x[1], str):
            m = self.marked(c)
            if m is not None and (x[1] in m or self.foreign(x[1]) or any(self.foreign(ch) and ch not in m for ch in x[1])):
                return TRUE if x[1] in m else FALSE
        return self.contains_content(c, x, n)

    def contains_content(self, c, x, n):
        if c[0] in ("list", "setc"):
            unknown = []
            for e in c[1:]:
                at = self.eq_atom(x, e)
                r = bool(at[1]) if is_const(at) else self.decide(at)
                if r:
                    return TRUE
                if r is None:
                    unknown.append(at)
            for at in unknown:
                if self.split(at):
                    return TRUE
            return FALSE
        if c[0] == "lcat":
            for p in c[1:]:
                r = self.contains_content(p, x, n)
                if is_const(r):
                    if r[1]:
                        return TRUE
                elif self.split(r):
                    return TRUE
            return FALSE
        if c[0] in ("sorted", "rev"):
            return self.contains_content(c[1], x, n)
        if c[0] in ("keys",):
            if c[1] in self.st.heap:
                return TRUE if self.dict_has(("obj", c[1]), x, n) else FALSE
        return ("in", x, c)

    def e_Attribute(self, n, fid):
        return self.getattr(self.ev(n.value, fid), n.attr, n)

    def e_Subscript(self, n, fid):
        o = self.ev(n.value, fid)
        s = n.slice
        if s._ == "Index":
            return self.getitem(o, self.ev(s.value, fid), n)
        if s._ == "Slice":
            lo = self.ev(s.lower, fid) if s.lower else NONE
            hi = self.ev(s.upper, fid) if s.upper else NONE
            st = self.ev(s.step, fid) if s.step else NONE
            return self.getslice(o, lo, hi, st, n)
        raise Undecided("subscript")

    def e_Call(self, n, fid):
        f = self.ev(n.func, fid)
        args = [self.ev(a, fid) for a in n.args]
        kw = {}
        for k in n.keywords:
            kw[k.arg] = self.ev(k.value, fid)
        star = None
        if n.starargs is not None:
            s = self.ev(n.starargs, fid)
            c = ("list",) + s[1:] if s[0] == "tuple" else self.content_of(s)
            if s[0] == "gen":
                c = self.obj(self.bm.to_list(s, n)).content
            if c is not None and c[0] == "list":
                args.extend(c[1:])
            else:
                star = c
        if n.kwargs is not None:
            d = self.ev(n.kwargs, fid)
            if self.isobj(d, "dict") and not self.obj(d).open:
                for k, v in self.obj(d).entries.items():
                    kw[k[1]] = v
            else:
                kw["**"] = d
        return self.call(f, args, kw, n, star)

    def e_Yield(self, n, fid):
        v = self.ev(n.value, fid) if n.value is not None else NONE
        if not self.yield_handlers:
            raise Undecided("yield without a consumer")
        return self.yield_handlers[-1](v)

    def comp(self, n, fid, emit):
        def level(i, f):
            if i == len(n.generators):
                emit(f)
                return
            g = n.generators[i]
            it = self.ev(g.iter, f)

            def body(elem):
                self.assign(g.target, elem, f)
                for c in g.ifs:
                    if not self.test(self.ev(c, f)):
                        raise PyContinue()
                level(i + 1, f)
            self.iterate(it, body, g)
        level(0, fid)

    def e_ListComp(self, n, fid):
        out = self.new_list()
        f = self.push_scope(fid, n)

        def emit(f):
            self.bm.list_append(out, self.ev(n.elt, f), n, quiet=True)
        self.comp(n, f, emit)
        return out

    def e_SetComp(self, n, fid):
        out = self.e_ListComp(n, fid)
        self.obj(out).kind = "set"
        return out

    def e_DictComp(self, n, fid):
        out = self.new_dict()
        f = self.push_scope(fid, n)

        def emit(f):
            self.dict_set(out, self.ev(n.key, f), self.ev(n.value, f), n, quiet=True)
        self.comp(n, f, emit)
        return out

    def push_scope(self, fid, n):
        f = self.fresh()
        self.st.frames[f] = {"#up": fid, "#locals": frozenset(), "#globals": frozenset()}
        return f

    def e_GeneratorExp(self, n, fid):
        # the first iterable is evaluated at once
        first = self.ev(n.generators[0].iter, fid)
        self.capture(fid)
        o = Obj("gen")
        name = self.fnname()

        def start(handler):
            f = self.push_scope(fid, n)
            self.yield_handlers.append(None)
            self.yield_handlers.pop()

            def emit(f):
                handler(self.ev(n.elt, f))

            def level(i, f):
                if i == len(n.generators):
                    return emit(f)
                g = n.generators[i]
                it = first if i == 0 else self.ev(g.iter, f)

                def body(elem):
                    self.assign(g.target, elem, f)
                    for c in g.ifs:
                        if not self.test(self.ev(c, f)):
                            raise PyContinue()
                    level(i + 1, f)
                self.iterate(it, body, g)
            level(0, f)
        o.extra = {"start": start}
        t = self.alloc(o)
        return ("gen", t[1])

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node, star=None):
        if len(self.stack) > self.cfg.depth:
            raise Undecided("call depth")
        k = f[0]
        if k == "fn":
            return self.call_fn(f, args, kw, node, star)
        if k == "bm":
            if f[2][0] == "fn":
                return self.call_fn(f[2], [f[1]] + args, kw, node, star, bound=f[1])
            return self.bm.call_bound_ext(f, args, kw, node, star)
        if k == "cls":
            return self.instantiate(f, args, kw, node, star)
        if k == "partial":
            kk = dict(f[3])
            kk.update(kw)
            return self.call(f[1], list(f[2]) + args, kk, node, star)
        if k == "pywrap":
            return f[1](self, args, kw, node)
        if k == "meth":
            return self.bm.method(f[1], f[2], args, kw, node, star)
        if k == "x":
            return self.bm.call_external(f[1], args, kw, node, star)
        if f == NONE:
            self.raise_("TypeError", node, "call of None")
        if k == "obj":
            o = self.obj(f)
            if o.kind == "inst":
                m = self.class_lookup(o.cls, "__call__")
                if m is not None:
                    return self.call(("bm", f, m), args, kw, node, star)
                if o.extra and o.extra.get("callable"):
                    return o.extra["callable"](self, f, args, kw, node)
            self.raise_("TypeError", node, "object is not callable")
        if is_const(f) or k == "tuple":
            self.raise_("TypeError", node, "%s is not callable" % show(f))
        if k == "property":
            raise Undecided("call of a property")
        return self.bm.call_opaque(f, args, kw, node, star)

    def call_fn(self, ft, args, kw, node, star=None, bound=None):
        fn = self.fns[ft[1]]
        n = fn.node
        fid = self.bind_args(fn, args, kw, node, star)
        self.analysed.add((getattr(n, "file", "?"), fn.name, n.lineno))
        if n._ != "Lambda" and is_generator(n):
            o = Obj("gen")
            self.capture(fid)
            qual = self.qual(fn)

            def start(handler):
                self.stack.append((qual, fid, n, fn.module))
                self.yield_handlers.append(handler)
                try:
                    self.exec_block(n.body, fid)
                except PyReturn:
                    pass
                finally:
                    pass
                self.yield_handlers.pop()
                self.stack.pop()
            o.extra = {"start": start, "fn": fn.name}
            t = self.alloc(o)
            return ("gen", t[1])
        self.stack.append((self.qual(fn), fid, node or n, fn.module))
        yh, self.yield_handlers = self.yield_handlers, []
        depth = len(self.stack)
        try:
            if n._ == "Lambda":
                r = self.ev(n.body, fid)
            else:
                try:
                    self.exec_block(n.body, fid)
                    r = NONE
                except PyReturn as e:
                    r = e.value
                    del self.stack[depth:]
        finally:
            self.yield_handlers = yh
            del self.stack[depth - 1:]
        fr = self.st.frames.get(fid)
        if fr is not None and not fr.get("#cap"):
            del self.st.frames[fid]
        return r

    def qual(self, fn):
        if fn.cls:
            return fn.cls + "." + fn.name
        return fn.module + "." + (fn.name or "?")

    def bind_args(self, fn, args, kw, node, star=None):
        n = fn.node
        a = n.args
        fid = self.fresh()
        fr = {"#up": fn.frame if not (isinstance(fn.frame, tuple) and fn.frame[0] == "k") else self._class_up(fn.frame),
              "#locals": frozenset(local_names(n)), "#globals": frozenset(getattr(n, "_globals", ()))}
        self.st.frames[fid] = fr
        params = a.args
        npos = len(params)
        vals = list(args)
        kw = dict(kw)
        dstart = npos - len(fn.defaults)
        extra = ()
        name = fn.name
        if "**" in kw:
            if a.kwarg is None:
                raise Undecided("call with unknown keywords")
        if len(vals) > npos:
            if a.vararg is None:
                del self.st.frames[fid]
                self.raise_("TypeError", node, "%s() takes %d arguments, %d given" % (name, npos, len(vals)))
            extra = tuple(vals[npos:])
            vals = vals[:npos]
        if star is not None:
            if len(vals) < npos or a.vararg is None:
                # an unknown number of arguments
                need = npos - len(vals)
                at = self.eq0(("sub", self.clen(star), const(need)))
                required = max(0, dstart - len(vals))
                r = self.decide(at)
                if a.vararg is None:
                    lo = self.lt0(("sub", self.clen(star), const(required)))
                    hi = self.lt0(("sub", const(need), self.clen(star)))
                    # splits: wrong number is a TypeError
                    if "arity" in self.cfg.hazards:
                        if self.test(lo) or self.test(hi):
                            del self.st.frames[fid]
                            self.raise_("TypeError", node, "%s() may be called with a wrong number of arguments" % name)
                    cnt = None
                    for c in range(required, need + 1):
                        e = self.eq0(("sub", self.clen(star), const(c)))
                        if self.test(e):
                            cnt = c
                            break
                    if cnt is None:
                        raise Infeasible()
                    vals.extend(self.item(star, const(i), node, hazard=False) for i in range(cnt))
                    star = None
                else:
                    if need == 0:
                        pass
                    else:
                        raise Undecided("star arguments")
        for i, p in enumerate(params):
            if i < len(vals):
                v = vals[i]
                if p._ == "Name" and p.id in kw:
                    del self.st.frames[fid]
                    self.raise_("TypeError", node, "%s() got multiple values for %s" % (name, p.id))
            elif p._ == "Name" and p.id in kw:
                v = kw.pop(p.id)
            elif i >= dstart:
                v = fn.defaults[i - dstart]
            else:
                del self.st.frames[fid]
                self.raise_("TypeError", node, "%s() misses argument %s" % (name, getattr(p, "id", "?")))
            self.assign(p, v, fid)
        if a.vararg:
            vn = a.vararg if isinstance(a.vararg, str) else a.vararg.arg
            if star is not None:
                fr[vn] = star if not extra else lcat(("list",) + extra, star)
            else:
                fr[vn] = ("tuple",) + extra
        if a.kwarg:
            kn = a.kwarg if isinstance(a.kwarg, str) else a.kwarg.arg
            if "**" in kw:
                rest = kw.pop("**")
                if not kw:
                    fr[kn] = rest
                else:
                    raise Undecided("mixed keyword arguments")
            else:
                fr[kn] = self.new_dict([(const(k), v) for k, v in kw.items()])
        elif kw:
            del self.st.frames[fid]
            self.raise_("TypeError", node, "%s() got an unexpected keyword %s" % (name, sorted(kw)[0]))
        return fid

    def _class_up(self, fid):
        return self.classes[fid[1]].parent_frame

    def instantiate(self, c, args, kw, node, star=None):
        q = c[1]
        o = Obj("inst", q)
        t = self.alloc(o)
        init = self.class_lookup(q, "__init__")
        if init is not None and init[0] == "fn":
            self.constructing.append(t[1])
            try:
                self.call_fn(init, [t] + args, kw, node, star, bound=t)
            finally:
                self.constructing.pop()
        elif self.external_bases(q):
            self.bm.ext_init(t, o, args, kw, node)
        elif args or kw:
            self.raise_("TypeError", node, "%s() takes no arguments" % q)
        return t


class _WhileEnd(Exception):
    pass


class _Multi(Exception):
    def __init__(self, elems):
        self.elems = elems


def lcat(a, b):
    pa = list(a[1:]) if a[0] == "lcat" else [a]
    pb = list(b[1:]) if b[0] == "lcat" else [b]
    out = []
    for p in pa + pb:
        if p == ("list",):
            continue
        if out and out[-1][0] == "list" and p[0] == "list":
            out[-1] = out[-1] + p[1:]
        else:
            out.append(p)
    if not out:
        return ("list",)
    if len(out) == 1:
        return out[0]
    return ("lcat",) + tuple(out)


def same_keys(a, b):
    """Do two iterated collections have the same keys."""
    def norm(t):
        if t[0] in ("keys", "items", "values"):
            return ("dict", t[1])
        if t[0] == "lmapd":
            return norm(t[2])
        if t[0] in ("sorted", "rev"):
            return norm(t[1])
        return t
    return norm(a) == norm(b)
