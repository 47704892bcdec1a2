"""Histories in which a message is processed while a flush is suspended at a yield."""
from checks.model import *


class Interleaved(History):
    """pre: samples before the first flush; inject: (type, name id) processed when the flush has
    yielded its k-th datapoint; then a second flush."""

    def __init__(self, ctx, kind, pre, inject, k, prefix="cfg", I=None, between=()):
        self.pre, self.inject, self.k = pre, inject, k
        self.inum = len(pre)
        steps = list(pre) + [inject] + list(between) + ["flush", "flush"]
        # numbering: pre samples, the injected one, then the flushes
        History.__init__(self, ctx, kind, steps, prefix, I)

    def send(self, I, o, n, s):
        f = [self.val(n), const(s[0])] + ([self.third(n)] if len(s) > 2 else [])
        I.call(I.getattr(o, "process_message", None), [self.message(n), const(s[0]), self.key[s[1]], I.new_list(f)], {}, None)

    def scenario(self, I):
        o = self.make(I)
        label_root(I, o)
        ks = [self.key[i] for i in self.ids]
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                I.assume(I.eq_atom(a, b), False)
        self.well_formed(I)
        vs = [("float", self.val(n)) for n, s in enumerate(self.steps) if s != "flush" and s[0] == "ms"]
        for a in vs:
            I.assume(I.lt0(a), False)
        for a, b in zip(vs, vs[1:]):
            I.assume(I.lt0(("sub", a, b)), True)
        start_mark(I)
        for n, s in enumerate(self.pre):
            I.event("mark", "step%d" % n)
            self.send(I, o, n, s)
        I.event("mark", "step%d" % (len(self.steps) - 2))
        count = [0]

        def on(v):
            if count[0] == self.k:
                I.event("mark", "inject")
                self.send(I, o, self.inum, self.inject)
                I.event("mark", "injected")
            count[0] += 1
        drain(I, I.call(I.getattr(o, "flush", None), [const(10000), const(90)], {}, None), on)
        I.event("mark", "step%d" % (len(self.steps) - 1))
        drain(I, I.call(I.getattr(o, "flush", None), [const(10000), const(90)], {}, None))
        I.event("mark", "end")
        return o

    def assignment(self, rng, turn=0):
        env = History.assignment(self, rng, turn)
        env[INTERVAL], env[PERCENT] = Fraction(10000), Fraction(90)
        ms = [n for n, s in enumerate(self.steps) if s != "flush" and s[0] == "ms"]
        for n, v in zip(ms, sorted(rng.sample(["0", "1", "2.5", "7", "10", "44.25", "300"], len(ms)), key=float)):
            env[self.val(n)] = v
        return env

    def tell(self, p):
        n = self.inum
        parts = []
        for i, s in list(enumerate(self.pre)):
            parts.append("%s:%s|%s" % (p.ev(self.key[s[1]]), p.ev(self.val(i)), s[0]))
        s = self.inject
        parts.append("flush, with %s:%s|%s processed after datapoint %d" % (p.ev(self.key[s[1]]), p.ev(self.val(n)), s[0], self.k + 1))
        parts.append("flush")
        return "; ".join(parts)


def injected(r):
    return any(e.kind == "mark" and e.what == "inject" for e in r.events)


def split_times(evs):
    """(clock readings of the flush, clock readings of the message processed in between)."""
    own, inj, cur = [], [], False
    for e in all_events(evs):
        if e.kind == "mark" and e.what in ("inject", "injected"):
            cur = e.what == "inject"
        elif e.kind == "time" and e.args:
            (inj if cur else own).append(e.args[0])
    return own, inj


def account(H, r, p):
    """Differences of the two flushes from a reference in which the message came before the first
    flush, and from one in which it came between them."""
    st = stages(r)
    n = H.inum
    f1, f2 = len(H.steps) - 2, len(H.steps) - 1
    own1, inj = split_times(st[f1])
    own2, _ = split_times(st[f2])
    ts = []
    for own in (own1, own2):
        ts.append(Fraction(math.floor(p.ev(own[0]))) if own else None)
    if None in ts:
        return None
    F = [Flushed(st[f1], p), Flushed(st[f2], p)]
    # a reading inside a loop is not a reading of the flush
    res = []
    injt = [p.ev(x) for x in inj]
    for early in (True, False):
        ref = Reference(H.kind, H.prefix, p)
        for i, s in enumerate(H.pre):
            ref.sample(s[0], p.ev(H.key[s[1]]), p.ev(H.val(i)), p.ev(H.third(i)) if len(s) > 2 else None,
                       [p.ev(e.args[0]) for e in all_events(st[i]) if e.kind == "time" and e.args])
        s = H.inject
        arg = (s[0], p.ev(H.key[s[1]]), p.ev(H.val(n)), p.ev(H.third(n)) if len(s) > 2 else None, injt)
        out = []
        for k in (0, 1):
            if early == (k == 0):
                ref.sample(*arg)
            exp, groups, rec = ref.flush(p.ev(INTERVAL), p.ev(PERCENT), ts[k])
            if any(len(x) > 4 for x in exp.values()):
                return None
            known = {q for q, x in exp.items()}
            ds = differences(F[k], exp, ref, ts[k])
            out.append((ds, exp, ref.ambiguous))
        res.append(out)
    return F, ts, res, ref.internal


def is_internal(text, internal):
    return text.startswith(internal)


def run_case(ctx, rep, kind, pre, inject, wanted, n=None, I=None, raises=True, ks=None, prefix="cfg"):
    """All positions of the message in the flush."""
    subj = "%s:%s+%s" % (kind, ",".join(s[0] for s in pre), inject[0])
    k = 0
    total = 0
    for k in (ks if ks is not None else range(200)):
        H = Interleaved(ctx, kind, pre, inject, k, prefix, I)
        I = H.I
        if not any(injected(r) for r in H.paths if r.kind != "undecided"):
            break
        for r in H.paths:
            if r.kind == "undecided":
                rep.undecided("interleaved", subj, r.value)
        for hit in H.points(n or (30 if ctx.thorough else 6), ctx.seed + k):
            if hit is None:
                continue
            r, p = hit
            if not injected(r):
                continue
            if r.kind == "raise":
                if raises:
                    rep.violation("completes", "%s:%s:%s" % (kind, inject[0], excname(r.value.exc)), "%s: %s" % (H.tell(p), r.value),
                                  getattr(r.value, "where", None), path_text(r))
                continue
            a = account(H, r, p)
            if a is None:
                continue
            total += 1
            wanted(rep, H, r, p, a, subj)
    if total:
        rep.ok("interleaved", "%s: %d points at %d positions" % (subj, total, k), n=total)
    else:
        rep.undecided("interleaved", subj, "no point on any path")


def spread(jobs):
    """Jobs with the positions of long ones spread over several workers."""
    out = []
    for j in jobs:
        heavy = {s[0] for s in list(j[1]) + [j[2]]} & {"m", "sli", "pd"}
        for a in range(8 if heavy else 1):
            out.append(tuple(j) + (range(a, 200, 8 if heavy else 1),))
    out.sort(key=lambda j: -len({s[0] for s in list(j[1]) + [j[2]]} & {"m", "sli", "pd"}))
    return out
