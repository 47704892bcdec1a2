"""C29: the flush of the service is interpreted with a processor whose flush gives an arbitrary sequence,
and with ones giving known sequences of symbolic datapoints; its sends to carbon, its yields to the
reactor and the flush it asks for are compared with the contract on every path."""
from checks.common import *

ASSUMPTIONS = ["an iterator handed to the cooperator is run to its end", "sendDatapoint returns"]
TECHNIQUE = "static analysis: abstract interpretation of the flush with symbolic datapoints; order and number of send events against the produced sequence"
INTERVAL = sym("cfg:flush_interval", "int")


def triples(n, k=0, named=False):
    """Datapoints of flush k; named: with known paths, in no sorted order and some twice."""
    name = lambda i: const("stats.%s" % "qdzdax"[(i * 5 + k) % 6])
    return [("tuple", name(i) if named else sym("path%d_%d" % (k, i), "str"), sym("value%d_%d" % (k, i), "float"), sym("stamp%d_%d" % (k, i), "int")) for i in range(n)]


def scenario(ctx, sizes, named=False):
    """sizes: sizes of the flushes made one after the other; None for an arbitrary one."""
    def sc(I):
        c = ctx.need_class(I, "txstatsd.service", "StatsDService")
        count = [0]

        def flush(I, base, args, kw, node):
            if show(base) != "cfg:processor":
                return None
            k = count[0]
            count[0] += 1
            if k >= len(sizes) or sizes[k] is None:
                return None
            ret = I.new_list(triples(sizes[k], k, named))
            I.event("call", ("attr", base, "flush"), args, kw, node=node, ret=ret)
            return ret
        I.cfg.opaque_methods["flush"] = flush
        o = I.call(c, [sym("cfg:carbon", "obj"), sym("cfg:processor", "obj"), INTERVAL], {}, None)
        for n in range(len(sizes)):
            I.event("mark", "m%d" % n)
            start = len(I.st.events)
            I.call(I.getattr(o, "flushProcessor", None), [], {}, None)
            I.event("mark", "called%d" % n)
            coop = [e for e in I.st.events[start:] if e.kind == "call" and callname(e).rsplit(".", 1)[-1] in ("coiterate", "cooperate")]
            for e in coop:
                if e.args:
                    I.event("mark", "run%d" % n)
                    drain(I, e.args[0])
            I.event("mark", "end%d" % n)
    return sc


def is_send(e):
    return e.kind == "call" and callname(e) == "cfg:carbon.sendDatapoint"


def run(ctx, rep):
    known(ctx, rep)
    arbitrary(ctx, rep)


def section(r, a, b):
    out, on = [], False
    for e in r.events:
        if e.kind == "mark":
            if e.what == a:
                on = True
            elif e.what == b:
                on = False
        elif on:
            out.append(e)
    return out


def one_flush(rep, subj, r, evs, told):
    """One flush of the processor, with the service's interval."""
    fl = calls(evs, "cfg:processor.flush")
    if len(fl) != 1:
        rep.violation("one-flush", subj, "%s flushes the processor %d times" % (told, len(fl)), fl[0].where if fl else None, path_text(r))
        return
    e = fl[0]
    iv = e.kw.get("interval", e.args[0] if e.args else None)
    if iv is None:
        rep.violation("flush-interval", subj, "%s flushes the processor with its default interval instead of the configured one" % told, e.where, path_text(r))
    elif iv != INTERVAL:
        if is_const(iv) or compare(iv, INTERVAL, r.facts.log)[0] == "differ":
            rep.violation("flush-interval", subj, "%s flushes the processor with the interval %s, configured is %s" % (told, show(iv), show(INTERVAL)), e.where, path_text(r))
        else:
            rep.undecided("flush-interval", subj, show(iv))
    else:
        rep.ok("flush-interval", subj)
    if len(e.args) > 1 or "percent" in e.kw:
        pc = e.kw.get("percent", e.args[1] if len(e.args) > 1 else None)
        if pc is not None and is_const(pc) and pc[1] != 90:
            rep.violation("flush-interval", "%s:percent" % subj, "%s flushes with percent %s" % (told, show(pc)), e.where, path_text(r))


def send_parts(e):
    """(path, timestamp, value) of a send, or None."""
    path = e.kw.get("metric", e.args[0] if e.args else None)
    dp = e.kw.get("datapoint", e.args[1] if len(e.args) > 1 else None)
    if path is None or dp is None or dp[0] != "tuple" or len(dp) != 3:
        return None
    return path, dp[1], dp[2]


def known(ctx, rep):
    sizes = [(0,), (1,), (2,), (5,), (2, 3)] + ([(3, 0, 4), (9,), (40,)] if ctx.thorough else [])
    for sz, named in [(s, False) for s in sizes] + [(s, True) for s in sizes if max(s) > 1]:
        I = ctx.interp()
        for r in ctx.explore(I, scenario(ctx, sz, named)):
            subj = "flush of %s%s" % ("+".join(map(str, sz)), " named" if named else "")
            if r.kind == "undecided":
                rep.undecided("sent-once", subj, r.value)
                continue
            if r.kind == "raise":
                rep.violation("sent-once", "raise", "%s datapoints: %s" % (subj, r.value), getattr(r.value, "where", None), path_text(r))
                continue
            for n, k in enumerate(sz):
                told = "flush %d of %d" % (n + 1, len(sz))
                whole = section(r, "m%d" % n, "end%d" % n)
                one_flush(rep, "flush", r, whole, told)
                direct = [e for e in all_events(section(r, "m%d" % n, "called%d" % n)) if is_send(e)]
                if len(direct) > 1:
                    rep.violation("yields", "direct", "%s sends its datapoints without returning to the reactor" % told, direct[0].where, path_text(r))
                    continue
                seq = [e for e in all_events(whole) if is_send(e) or e.kind == "yield"]
                loops = [e for e in whole if e.kind == "loop" and any(is_send(x) for x in all_events([e]))]
                if loops:
                    rep.undecided("sent-once", subj, "sends in a loop of unknown length")
                    continue
                sends = [e for e in seq if is_send(e)]
                parts = [send_parts(e) for e in sends]
                if None in parts:
                    rep.undecided("sent-once", subj, repr(sends[parts.index(None)])[:200])
                    continue
                want = [(t[1], t[3], t[2]) for t in triples(k, n, named)]
                if parts == want:
                    rep.ok("sent-once", "%s: %d datapoints in order" % (told, k))
                else:
                    i = next((i for i in range(max(len(parts), len(want))) if parts[i:i + 1] != want[i:i + 1]), 0)
                    got = parts[i] if i < len(parts) else None
                    exp = want[i] if i < len(want) else None
                    if got is not None and exp is not None and not definite(got, exp):
                        rep.undecided("sent-once", subj, "%s" % [show(x) for x in got])
                        continue
                    rep.violation("sent-once", "datapoints", "of %s with %d datapoints, send number %d is %s, expected %s" % (
                        told, k, i + 1, [show(x) for x in got] if got else "missing", [show(x) for x in exp] if exp else "none"),
                        sends[min(i, len(sends) - 1)].where if sends else None, path_text(r))
                    continue
                bad = None
                since = True
                for e in seq:
                    if e.kind == "yield":
                        since = True
                    else:
                        if not since:
                            bad = e
                        since = False
                if bad:
                    rep.violation("yields", "between", "%s sends two datapoints without yielding to the reactor between them" % told, bad.where, path_text(r))
                else:
                    rep.ok("yields", told)


def definite(got, exp):
    """Whether a sent triple surely differs from the expected one."""
    for a, b in zip(got, exp):
        if a == b:
            continue
        if a[0] in ("const", "num", "str") or a[0] == "sym" or is_const(a):
            return True
        if compare(a, b)[0] == "differ":
            return True
    return False


def arbitrary(ctx, rep):
    I = ctx.interp()
    for r in ctx.explore(I, scenario(ctx, (None,))):
        if r.kind != "ok":
            rep.undecided("any-flush", r.kind, r.value)
            continue
        evs = section(r, "m0", "end0")
        one_flush(rep, "flush", r, evs, "a flush")
        loops = [e for e in evs if e.kind == "loop" and any(is_send(x) for x in all_events([e]))]
        fl = calls(evs, "cfg:processor.flush")
        if len(loops) != 1 or not fl or not isinstance(loops[0].extra.over, tuple) or loops[0].extra.over != fl[0].ret:
            rep.undecided("any-flush", "loop", "%d loops send" % len(loops))
            continue
        ok = True
        for p in loops[0].extra.paths:
            where = loops[0].where
            facts = [("" if v else "not ") + show(a)[:150] for a, v in p.facts]
            if p.kind == "raise":
                continue                 # malformed items do not occur (C04)
            if p.kind in ("break", "return"):
                rep.violation("any-flush", "stops", "a flush stops when %s: the datapoints after it are lost" % facts[-3:], where, path_text(r))
                ok = False
                continue
            n = len([e for e in all_events(p.events) if is_send(e)])
            y = len([e for e in all_events(p.events) if e.kind == "yield"])
            if any(e.kind == "loop" and any(is_send(x) for x in all_events([e])) for e in p.events):
                rep.undecided("any-flush", "nested", "a loop sends")
                ok = False
            elif n != 1:
                rep.violation("any-flush", "count", "a datapoint is sent %d times when %s" % (n, facts[-3:]), where, path_text(r))
                ok = False
            elif not y:
                # chunks are allowed only when bounded: nothing bounds them here
                rep.violation("yields", "arbitrary", "a datapoint is sent without yielding to the reactor when %s" % facts[-3:], where, path_text(r))
                ok = False
        if ok:
            rep.ok("any-flush", "every item of an arbitrary flush is sent once, with a yield")
