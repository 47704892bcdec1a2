"""Analysis scenarios: objects in an arbitrary reachable state, and interference at yields."""
from interp import *
import terms as T

NUMT = ("int", "float", "num", "bool")


def all_events(events, depth=0):
    """Every event of a path, those of loop bodies included."""
    for e in events:
        yield e
        if e.kind == "loop" and depth < 6:
            for p in e.extra.paths:
                for x in all_events(p.events, depth + 1):
                    yield x


def join_types(tys):
    tys = set(tys)
    none = "none" in tys
    tys.discard("none")
    opt = any(t.endswith("?") for t in tys)
    tys = {t.rstrip("?") for t in tys}
    if not tys:
        return "unk"
    if len(tys) == 1:
        t = tys.pop()
    elif tys <= set(NUMT):
        t = "num"
    else:
        return "unk"
    return t + "?" if (none or opt) and t != "unk" else t


class Learned(object):
    def __init__(self):
        self.joints = {}
        self.opened = {}        # label -> 'dict'/'list'
        self.mutable = set()    # (class, attribute) written outside construction
        self.types = {}         # (class, attribute) -> set of types seen
        self.values = {}        # label of a dict -> list of (heap, value, key)
        self.elems = {}         # label of a list -> list of (heap, value)
        self.keys = {}          # label -> set of key types
        self.shape = {}         # label of a fixed list
        self.invs = {}          # class -> invariants over its instances


class Joint(object):
    """Dicts that always hold the same keys, written together: one choice of how an entry looks."""

    def __init__(self, gid, labels, reps):
        self.gid, self.labels, self.reps = gid, labels, reps

    def rep(self, I, k):
        r = I.st.joint.get((self.gid, k))
        if r is None or r == "absent":
            r = I.choose(len(self.reps)) if len(self.reps) > 1 else 0
            I.st.joint[(self.gid, k)] = r
        return self.reps[r]

    def lookup(self, I, t, o, k):
        for (g, k2), r in I.st.joint.items():
            if g == self.gid and I.key_rel(k2, k) is True:
                if k2 != k and r != "absent":
                    I.st.joint[(self.gid, k)] = r
                return r != "absent"
        n = len(self.reps)
        c = I.choose(n + 1)
        I.st.joint[(self.gid, k)] = c if c < n else "absent"
        return c < n


class Learner(object):
    """What operations make of the state reachable from a root object.

    make(I) builds the object; the drives are operations run on it, in order: first from
    the constructed object, then from an arbitrary state of the shapes seen, until no new
    shape appears.
    """

    def __init__(self, I, make, drives, max_paths=3000, rounds=2, invs=None):
        self.I = I
        self.L = Learned()
        self.L.invs = dict(invs or {})
        self.make = make
        self.writes = {}
        self.joints = {}
        self.npaths = 0
        self.undecided = []
        self.entries = []           # per learned path: {label: {key: (st, value)}}
        hz = I.cfg.hazards
        I.cfg.hazards = set()
        done = []
        for f, name in drives:
            done.append((f, name))

            def scenario(I, done=list(done)):
                o = make(I)
                label_root(I, o)
                for g, _ in done:
                    g(I, o)
                return o
            self.run(scenario, name, max_paths)
        self.group()
        for _ in range(rounds):
            before = self.signature()
            for f, name in drives:
                def scenario(I, f=f):
                    o = make(I)
                    label_root(I, o)
                    self.steady(I, o)
                    f(I, o)
                    return o
                self.run(scenario, name, max_paths)
            self.group()
            if self.signature() == before:
                break
        I.cfg.hazards = hz

    def signature(self):
        L = self.L
        return (sorted(L.opened.items()), sorted(L.mutable), sorted((k, tuple(sorted(v))) for k, v in L.types.items()),
                sorted((k, tuple(sorted(map(repr, vs)))) for k, vs in L.values.items()),
                sorted((k, tuple(sorted(map(repr, vs)))) for k, vs in L.elems.items()),
                sorted((g.labels, len(g.reps)) for g in {id(x): x for x in self.joints.values()}.values()))

    def run(self, scenario, name, max_paths):
        rs = self.I.explore(scenario, max_paths)
        self.npaths += len(rs)
        for r in rs:
            if r.kind == "undecided":
                self.undecided.append((name, r.value))
                continue
            self.scan(r, name)

    def group(self):
        """Labels of opened dicts that hold the same keys on every learned path."""
        L = self.L
        labels = sorted(l for l, k in L.opened.items() if k == "dict" and "[]" not in l)
        self.joints = {}
        ok = {}
        for i, a in enumerate(labels):
            for b in labels[i + 1:]:
                both = 0
                same = True
                for ent in self.entries:
                    ka, kb = set(ent.get(a, ())), set(ent.get(b, ()))
                    if ka != kb:
                        # a key of one that the other is known not to hold
                        oa, ob = ent["#"].get(a), ent["#"].get(b)
                        if any(ob is None or k in ob for k in ka - kb) or any(oa is None or k in oa for k in kb - ka):
                            same = False
                            break
                    both += bool(ka & kb)
                if same and both:
                    ok[(a, b)] = True
        seen = set()
        for a in labels:
            if a in seen:
                continue
            g = [a] + [b for b in labels if ok.get((a, b))]
            if len(g) < 2:
                continue
            seen |= set(g)
            reps, sigs = [], {}
            for ent in self.entries:
                for k in ent.get(a, ()):
                    if any(k not in ent.get(l, ()) for l in g):
                        continue
                    r = {l: ent[l][k] + (k,) for l in g}
                    sig = tuple(shape(r[l][0], r[l][1], exact=True) for l in g)
                    if sig not in sigs:
                        sigs[sig] = r
            reps = [sigs[x] for x in sorted(sigs, key=repr)]
            if not reps or len(reps) > 12:
                continue
            j = Joint("+".join(g), tuple(g), reps)
            for l in g:
                self.joints[l] = j
        L.joints = self.joints

    def scan(self, r, name):
        L = self.L
        st = r.state
        heaps = st.heap
        ent = {"#": {}}
        for e in all_events(r.events):
            if e.kind != "write":
                continue
            x = e.extra
            lab = x.get("label")
            if e.what == "attr":
                if x.get("init") or "cls" not in x:
                    continue
                a = e.args[1][1]
                L.mutable.add((x["cls"], a))
                self.writes.setdefault(name, set()).add((x["cls"], a))
                v = x["raw"][3]
                L.types.setdefault((x["cls"], a), set()).add("none" if v == NONE else ty(v))
                continue
            if lab is None:
                continue
            self.writes.setdefault(name, set()).add(lab)
            if e.what in ("item", "fill", "delitem", "clear", "pop", "append", "extend", "insert", "insort",
                          "discard", "setslice"):
                t = x.get("target")
                k = heaps[t[1]].kind if t is not None and t[0] == "obj" and t[1] in heaps else None
                if k == "dict":
                    L.opened[lab] = "dict"
                elif e.what not in ("item", "listitem"):
                    L.opened[lab] = k or "list"
        for oid, o in heaps.items():
            if o.kind == "inst" and o.cls:
                for a, v in o.attrs.items():
                    if isinstance(v, tuple):
                        L.types.setdefault((o.cls, a), set()).add("none" if v == NONE else ty(v))
            if o.label is None:
                continue
            if o.kind == "dict":
                ent["#"][o.label] = set(o.absent) if o.open else None
                for k, v in o.entries.items():
                    if k in o.absent:
                        continue
                    L.values.setdefault(o.label, {}).setdefault(shape(st, v), (st, v, k))
                    L.keys.setdefault(o.label, set()).add(ty(k))
                    ent.setdefault(o.label, {})[k] = (st, v)
            elif o.kind in ("list", "deque", "set") and o.content is not None:
                c = o.content
                parts = c[1:] if c[0] == "lcat" else (c,)
                for p in parts:
                    base = p
                    while base[0] in ("sorted", "rev"):
                        base = base[1]
                    if base[0] == "list":
                        for v in base[1:]:
                            L.elems.setdefault(o.label, {}).setdefault(shape(st, v), (st, v))
                    elif base[0] == "insorted":
                        L.elems.setdefault(o.label, {}).setdefault(shape(st, base[2]), (st, base[2]))
                    elif base[0] == "lmap":
                        lp = self.I.loops.get(base[1])
                        for pi, es in base[3]:
                            for v in es:
                                q = lp.paths[pi].state if lp else st
                                L.elems.setdefault(o.label, {}).setdefault(shape(q, v), (q, v))
        self.entries.append(ent)

    # -- steady state
    def steady(self, I, root):
        """Replace the state reachable from root by an arbitrary reachable one."""
        Opener(I, self.L).walk(root)

    def interfere(self, I, root, ops):
        """Another operation may have run: everything it writes is unknown."""
        names = set()
        for op in ops:
            names |= self.writes.get(op, set())
        Opener(I, self.L, names).walk(root)


def label_root(I, root, label="self"):
    I.label_value(root, label)


class Opener(object):
    def __init__(self, I, L, only=None):
        self.I, self.L, self.only = I, L, only
        self.seen = set()

    def walk(self, root):
        todo = [root]
        later = []
        I = self.I
        while todo:
            t = todo.pop()
            if not (isinstance(t, tuple) and t and t[0] == "obj") or t[1] in self.seen or t[1] not in I.st.heap:
                if isinstance(t, tuple) and t and t[0] in ("tuple", "list", "lcat", "partial", "bm"):
                    todo.extend(x for x in t[1:] if isinstance(x, tuple))
                continue
            self.seen.add(t[1])
            o = I.obj(t)
            if o.kind == "inst":
                for a in list(o.attrs):
                    v = o.attrs[a]
                    if (o.cls, a) in self.L.mutable and (self.only is None or (o.cls, a) in self.only):
                        nv = self.havoc_attr(o, a, v, t)
                        if nv is not None:
                            o.attrs[a] = nv
                            continue
                    if isinstance(v, tuple):
                        todo.append(v)
                if o.cls in self.L.invs:
                    later.append(t)
            elif o.kind == "dict":
                todo.extend(o.entries.values())
                if o.label in self.L.opened and (self.only is None or o.label in self.only):
                    self.open_dict(t, o)
            elif o.kind in ("list", "deque", "set"):
                if o.label in self.L.opened and (self.only is None or o.label in self.only):
                    if o.content is not None:
                        todo.append(o.content)
                    self.open_list(o)
                elif o.content is not None:
                    todo.append(o.content)

        for t in later:
            assume_invariants(I, self.L, t)

    def scalar_type(self, q, a):
        return join_types(self.L.types.get((q, a), ()))

    def havoc_attr(self, o, a, v, t):
        I = self.I
        ts = self.L.types.get((o.cls, a), set())
        real = {x for x in ts if x != "none"}
        if v[0] == "obj" and real <= {"obj"}:
            return None             # the object is replaced by an equivalent one
        if real and real <= {"obj"} and v == NONE:
            return None
        y = join_types(ts)
        return ("sym", "%s.%s~%d" % (o.label or o.cls.split(".")[-1], a, I.fresh()), y)

    def open_dict(self, t, o):
        I = self.I
        o.ver = I.fresh()
        keep = set(o.present) | set(o.entries) if self.only is not None else set()
        o.entries = {}
        o.mat = {}
        o.pieces = ()
        o.absent = set()
        o.present = keep
        o.open = True
        ks = self.L.keys.get(o.label)
        if ks and len(ks) == 1:
            o.keyty = next(iter(ks))
        j = self.L.joints.get(o.label)
        if j is not None:
            for (g, k) in list(I.st.joint):
                if g == j.gid and k not in keep:
                    del I.st.joint[(g, k)]
            o.extra = dict(o.extra or {}, joint=j)
            L = self.L

            def proto(I, t, k, ver, j=j, label=o.label, L=L):
                st, v, k0 = j.rep(I, k)[label]
                return proto_value(I, L, st, v, k0, k, label, t, ver)
            o.proto = proto
            return
        o.proto = self.value_proto(o.label)

    def value_proto(self, label):
        alts = self.L.values.get(label, {}).values()
        tys = {ty(v) for st, v, k in alts}
        if not tys:
            return "unk"
        if tys <= set(NUMT):
            return "num" if len(tys) > 1 else tys.pop()
        if tys == {"str"}:
            return "str"
        L = self.L
        byshape = {}
        for st, v, k in alts:
            byshape.setdefault(shape(st, v), (st, v, k))
        reps = [byshape[x] for x in sorted(byshape, key=repr)]
        if all(v[0] in ("ret", "attr", "sym", "dget", "elem", "phi") for st, v, k in reps):
            return "unk"

        def proto(I, t, k, ver, reps=reps, label=label):
            st, v, k0 = reps[I.choose(len(reps))] if len(reps) > 1 else reps[0]
            return proto_value(I, L, st, v, k0, k, label, t, ver)
        return proto

    def elem_proto(self, label):
        alts = self.L.elems.get(label, {}).values()
        tys = {ty(v) for st, v in alts}
        if not tys:
            return "unk"
        if tys <= set(NUMT):
            return "num" if len(tys) > 1 else tys.pop()
        if tys == {"str"}:
            return "str"
        byshape = {}
        for st, v in alts:
            byshape.setdefault(shape(st, v), (st, v))
        reps = [byshape[x] for x in sorted(byshape, key=repr)]
        L = self.L
        if all(v[0] in ("ret", "attr", "sym", "dget", "elem", "phi") for st, v in reps):
            return "unk"

        def proto(I, t, reps=reps, label=label):
            st, v = reps[I.choose(len(reps))] if len(reps) > 1 else reps[0]
            return Cloner(I, L, st, {}, "%s[%s]" % (label, show(t))).clone(v)
        return proto

    def open_list(self, o):
        I = self.I
        c = ("sym", "%s~%d" % (o.label, I.fresh()), "list")
        I.protos()[c] = self.elem_proto(o.label)
        o.content = c


def proto_value(I, L, st, v, k0, k, label, t, ver):
    c = st.facts.eqc.get(v)
    if c is not None:
        return c
    if ty(v) in NUMT + ("str",) and v[0] != "c":
        y = ty(v)
        return ("dget", t[1], ver, k, "num" if y in NUMT else y, label)
    if v[0] == "c" and ty(v) in NUMT:
        return ("dget", t[1], ver, k, "num", label)
    return Cloner(I, L, st, {k0: k}, "%s[%s]~%d" % (label, show(k), ver), {"matkey": k, "matfrom": label}).clone(v)


def shape(st, v, depth=0, exact=False):
    if v[0] == "obj" and v[1] in st.heap and depth < 5:
        o = st.heap[v[1]]
        if o.kind == "inst":
            return ("inst", o.cls)
        if o.kind in ("list", "deque") and o.content and o.content[0] == "list" and o.label is None:
            return (o.kind, len(o.content))
        return (o.kind,)
    if v[0] == "tuple":
        return ("tuple",) + tuple(shape(st, x, depth + 1, exact) for x in v[1:])
    if v == NONE:
        return "none"
    if exact and ty(v) == "str":
        c = v if v[0] == "c" else st.facts.eqc.get(v)
        if c is not None:
            return ("const", c[1])
    y = ty(v)
    return "num" if y in NUMT else y


class Cloner(object):
    """A value like one of an earlier state, with everything that may change made unknown."""

    def __init__(self, I, L, st, keymap, tag, extra=None):
        self.I, self.L, self.st, self.keymap, self.tag = I, L, st, keymap, tag
        self.extra = dict(extra or {}, mat=True)
        self.memo = {}
        self.n = 0

    def clone(self, v, path=""):
        I = self.I
        if v in self.keymap:
            return self.keymap[v]
        if v[0] == "obj" and v[1] in self.st.heap:
            if v[1] in self.memo:
                return self.memo[v[1]]
            if v[1] in I.base.heap:
                return v
            o = self.st.heap[v[1]]
            n = o.clone()
            n.mat = {}
            n.extra = dict(o.extra or {}, **self.extra)
            t = I.alloc(n)
            self.memo[v[1]] = t
            if o.kind == "inst":
                for a, x in o.attrs.items():
                    if not isinstance(x, tuple):
                        continue
                    p = path + "." + a
                    if (o.cls, a) in self.L.mutable:
                        ts = self.L.types.get((o.cls, a), set())
                        real = {y for y in ts if y != "none"}
                        if not (real and real <= {"obj"}):
                            n.attrs[a] = ("sym", self.tag + p, join_types(ts))
                            continue
                    n.attrs[a] = self.clone(x, p)
                assume_invariants(I, self.L, t)
            elif o.kind == "dict":
                if o.label in self.L.opened:
                    Opener(I, self.L).open_dict(t, n)
                    n.ver = I.fresh()
                else:
                    n.entries = {k: self.clone(x, "%s[%s]" % (path, show(k))) for k, x in o.entries.items()}
            elif o.kind in ("list", "deque", "set"):
                if o.label in self.L.opened:
                    c = ("sym", self.tag + path, "list")
                    I.protos()[c] = Opener(I, self.L).elem_proto(o.label)
                    n.content = c
                elif o.content is not None and o.content[0] == "list":
                    n.content = ("list",) + tuple(self.clone(x, "%s[%d]" % (path, i))
                                                  for i, x in enumerate(o.content[1:]))
                elif o.content is not None:
                    c = ("sym", self.tag + path, "list")
                    p = I.common_proto(o.content)
                    b = self.base_list(o.content)
                    if p is None and b[0] == "lmap" and b[1] in I.loops:
                        alts = [a for a in b[3] if a[1]]
                        if len(alts) == 1 and len(alts[0][1]) == 1:
                            e = alts[0][1][0]
                            if ty(e) in NUMT + ("str",):
                                p = ty(e)
                            elif e[0] == "obj":
                                def p(I, t2, st=I.loops[b[1]].paths[alts[0][0]].state, e=e, tag=self.tag + path):
                                    return Cloner(I, self.L, st, {}, "%s[%s]" % (tag, show(t2)[:60])).clone(e)
                    if p is None:
                        p = Opener(I, self.L).elem_proto(o.label)
                    I.protos()[c] = p
                    try:
                        ln = I.clen(self.base_list(o.content))
                        I.assume(I.eq0(("sub", ("len", c), ln)), True)
                    except (Infeasible, Undecided):
                        pass
                    n.content = c
            return t
        if v[0] == "c":
            return v
        if v[0] in ("fn", "cls", "x", "mod", "regex"):
            return v
        if v[0] == "bm":
            return ("bm", self.clone(v[1], path)) + v[2:]
        if v[0] == "tuple":
            return ("tuple",) + tuple(self.clone(x, "%s(%d)" % (path, i)) for i, x in enumerate(v[1:]))
        if v[0] == "partial":
            return v
        s = subst(v, self.keymap)
        if self.stable(s):
            return s
        return ("sym", self.tag + path, ty(v))

    def base_list(self, c):
        while c[0] in ("lset", "sorted", "rev"):
            c = c[1]
        return c

    def stable(self, v):
        """Built from constants, keys and configuration only."""
        if v in self.keymap.values():
            return True
        if v[0] == "c":
            return True
        if v[0] == "sym":
            return v[1].startswith("cfg:")
        if v[0] in ("ret", "now", "rand", "float", "itemt", "item", "group", "elem", "exit", "phi", "attr", "lk", "dget"):
            return False
        return all(self.stable(x) for x in v[1:] if isinstance(x, tuple))


# ------------------------------------------------------------------ invariants of a class
def numeric_exprs(I, L, t, cls=None, depth=0, prefix=()):
    """{path: term} of the numbers an object holds."""
    out = {}
    o = I.obj(t)
    for a, v in sorted(o.attrs.items()):
        if not isinstance(v, tuple):
            continue
        p = prefix + (a,)
        ts = {x for x in L.types.get((o.cls, a), set()) if x != "none"}
        if v[0] == "obj" and I.isobj(v, "inst") and depth < 2:
            out.update(numeric_exprs(I, L, v, cls, depth + 1, p))
        elif v[0] == "obj" and I.isobj(v, "list", "deque"):
            if o.cls and ((o.cls, a) in L.mutable or I.obj(v).label in L.opened):
                try:
                    out[p + ("#len",)] = I.len_of(v)
                except Undecided:
                    pass
        elif ts and ts <= {"int", "bool"} and (ty(v) in ("int", "bool") or v == NONE):
            out[p] = v
    return out


def null_exprs(I, L, t, depth=0, prefix=()):
    out = {}
    o = I.obj(t)
    for a, v in sorted(o.attrs.items()):
        if not isinstance(v, tuple):
            continue
        if v[0] == "obj" and I.isobj(v, "inst") and depth < 2:
            out.update(null_exprs(I, L, v, depth + 1, prefix + (a,)))
        elif "none" in L.types.get((o.cls, a), ()) and (o.cls, a) in L.mutable:
            out[prefix + (a,)] = v
    return out


def inv_atoms(I, cand, num, nul):
    """The facts an invariant stands for, or None when it does not apply."""
    k = cand[0]
    try:
        if k == "ge0":
            return [(I.lt0(num[cand[1]]), False)]
        if k == "eq":
            return [(I.eq0(("sub", num[cand[1]], num[cand[2]])), True)]
        if k == "le":
            return [(I.lt0(("sub", num[cand[2]], num[cand[1]])), False)]
        if k == "null0":        # n is None exactly when e is 0
            n, e = nul[cand[1]], num[cand[2]]
            return [("iff", ("isnone", n), I.eq0(e))]
    except KeyError:
        return None
    return None


def assume_invariants(I, L, t):
    o = I.obj(t)
    cands = L.invs.get(o.cls)
    if not cands:
        return
    num, nul = numeric_exprs(I, L, t), null_exprs(I, L, t)
    for c in cands:
        at = inv_atoms(I, c, num, nul)
        for x in at or ():
            if x[0] == "iff":
                if is_const(x[1]) or is_const(x[2]):
                    continue
                I.st.facts.add_rule((x[1], True), (x[2], True))
                I.st.facts.add_rule((x[1], False), (x[2], False))
            else:
                a, v = x
                if is_const(a):
                    continue
                I.assume(a, v)


def holds(I, x):
    if x[0] == "iff":
        p, q = (bool(a[1]) if is_const(a) else I.st.facts.decide(a) for a in x[1:])
        if p is not None and q is not None:
            return p == q
        for v in (True, False):
            f = I.st.facts.clone()
            try:
                f.assume(x[1], v)
                f.fire()
            except Infeasible:
                continue
            if f.decide(x[2]) != v:
                return False
        return True
    a, v = x
    return (bool(a[1]) if is_const(a) else I.st.facts.decide(a)) == v


def infer_invariants(I, make, ops, rounds=6):
    """Invariants of the objects make builds that every operation preserves (Houdini)."""
    hz = I.cfg.hazards
    Lr = Learner(I, make, ops, rounds=2)
    L = Lr.L
    I.cfg.hazards = set()
    cls = []

    def init(I):
        o = make(I)
        cls.append(I.obj(o).cls)
        num, nul = numeric_exprs(I, L, o), null_exprs(I, L, o)
        cands = [("ge0", p) for p in num]
        if len(num) <= 8:
            for p in num:
                for q in num:
                    if p < q:
                        cands.append(("eq", p, q))
                    if p != q:
                        cands.append(("le", p, q))
        cands += [("null0", n, p) for n in nul for p in num if len(nul) * len(num) <= 24]
        good = []
        for c in cands:
            at = inv_atoms(I, c, num, nul)
            if at and all(holds(I, x) for x in at):
                good.append(c)
        return good
    rs = [r for r in I.explore(init) if r.kind == "ok"]
    if not rs:
        I.cfg.hazards = hz
        return Lr, {}
    cands = [c for c in rs[0].value if all(c in r.value for r in rs)]
    c0 = cls[0]
    for _ in range(rounds):
        L.invs = {c0: cands}
        bad = set()
        for f, name in ops:
            def scen(I, f=f):
                o = make(I)
                label_root(I, o)
                Lr.steady(I, o)
                f(I, o)
                num, nul = numeric_exprs(I, L, o), null_exprs(I, L, o)
                out = []
                for c in cands:
                    at = inv_atoms(I, c, num, nul)
                    if not at or not all(holds(I, x) for x in at):
                        out.append(c)
                return out
            for r in I.explore(scen):
                if r.kind == "ok":
                    bad |= set(r.value)
                elif r.kind == "undecided":
                    Lr.undecided.append((name, r.value))
        if not bad:
            break
        cands = [c for c in cands if c not in bad]
    else:
        cands = []
    L.invs = {c0: cands}
    I.cfg.hazards = hz
    return Lr, L.invs
