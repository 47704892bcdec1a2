"""C19: functions that succeed, fail at once, fail later or are reported by a function that fails are
scheduled with a reporting service; two rounds of the scheduled calls are interpreted, with Deferreds
fired between them, and the reports made, the errors logged and what the scheduler gets back compared
with the contract on every path."""
from checks.service import *

ASSUMPTIONS = ["the periodic task stops when its function raises or returns a Deferred that fails, as LoopingCall does"]
TECHNIQUE = "static analysis: abstract interpretation of scheduled reports over success and failure scenarios; report and log events against the contract"
NAME = sym("cfg:instance", "str")
OUT = ["returns", "raises", "later", "fails later", "failed", "nothing"]


def V(r, i):
    return sym("value%d_%d" % (r, i), "float")


KEYS = ["b.one", "a.two", "c", "d", "e"]


def scenario(ctx, plan, instance, bad=None, n=2):
    """plan: what the function does in each round; bad: (round, index) of the report that raises."""
    def sc(I):
        log = []
        I.cfg.ext["twisted.python.log.err"] = lambda I, a, kw, node: I.event("call", ("x", "twisted.python.log.err"), a, kw, node=node, ret=NONE) and NONE or NONE
        count = {"f": 0, "r": 0}
        pend = {}

        def result(I, r):
            d = I.new_dict()
            for i in range(n):
                I.setitem(d, const(KEYS[i + r % 2]), V(r, i), None)
            return d

        def function(I, a, kw, node):
            r = count["f"]
            count["f"] += 1
            count["r"] = 0
            I.event("call", ("x", "cfg.function"), a, kw, node=node, ret=NONE)
            what = plan[r] if r < len(plan) else "returns"
            if what == "returns":
                return result(I, r)
            if what == "nothing":
                return NONE
            if what == "raises":
                raise PyRaise("ValueError", node, "the function fails", where=I.where(node))
            d = I.call(I.lookup_global("stubs.twisted_model", "Deferred"), [], {}, None)
            if what == "failed":
                I.call(I.getattr(d, "errback", None), [failure(I)], {}, None)
            else:
                pend[r] = d
            return d

        def report(I, a, kw, node):
            r, i = count["f"] - 1, count["r"]
            count["r"] += 1
            I.event("call", ("x", "cfg.report"), a, kw, node=node, ret=NONE)
            if bad == (r, i):
                raise PyRaise("RuntimeError", node, "the report function fails", where=I.where(node))
            return NONE
        I.cfg.ext["cfg.function"] = function
        I.cfg.ext["cfg.report"] = report
        I.cfg.ext["cfg.other"] = lambda I, a, kw, node: I.event("call", ("x", "cfg.other"), a, kw, node=node, ret=NONE) and NONE or NONE
        c = ctx.need_class(I, "txstatsd.report", "ReportingService")
        s = I.call(c, {"given": [NAME], "empty": [const("")], "default": [], "none": [NONE]}[instance], {}, None)
        before = set(I.st.heap)
        f = ("x", "cfg.function")
        I.call(I.getattr(s, "schedule", None), [f, const(10), ("x", "cfg.report")], {}, None)
        tasks = [i for i in instances(I, I.st.heap, "LoopingCall") if i not in before]
        if len(tasks) != 1:
            raise Undecided("%d tasks made by a schedule" % len(tasks))
        call = attr(I, I.st.heap, tasks[0], "f")
        for r in range(len(plan) + 1):
            I.event("mark", "m%d" % r)
            try:
                v = I.call(call, listed(I.st.heap, attr(I, I.st.heap, tasks[0], "args")) or [], {}, None)
            except PyRaise as e:
                I.event("mark", "escaped%d" % r, [const(str(e))])
                break
            if r in pend:
                d = pend.pop(r)
                if plan[r] == "later":
                    I.call(I.getattr(d, "callback", None), [result(I, r)], {}, None)
                else:
                    I.call(I.getattr(d, "errback", None), [failure(I)], {}, None)
            I.event("mark", "state%d" % r, [state(I, v)])
        I.event("mark", "end")
    return sc


def failure(I):
    return I.call(I.lookup_global("stubs.twisted_model", "Failure"), [sym("why", "obj")], {}, None)


def state(I, v):
    """What the scheduler gets: good, bad or unknown."""
    h = I.st.heap
    if not is_inst(h, v):
        return const("good" if is_const(v) or v[0] == "obj" else "unknown")
    if is_inst(h, v, "Failure"):
        return const("bad")
    if is_inst(h, v, "Deferred"):
        c = attr(I, h, v[1], "called")
        if is_const(c) and not c[1]:
            return const("pending")
        r = attr(I, h, v[1], "result")
        return const("bad" if is_inst(h, r, "Failure") else "good" if is_const(r) or r[0] == "obj" else "unknown")
    return const("good")


def run(ctx, rep):
    jobs = []
    for instance in ("given", "empty", "default", "none"):
        for p in OUT:
            jobs.append(([p], instance, None, 2))
            if instance == "given":
                jobs += [([p, q], instance, None, 2) for q in OUT]
        jobs += [(["returns"], instance, None, n) for n in (0, 1, 3)]
    for b in ((0, 0), (0, 1), (1, 0)):
        for p in ("returns", "later"):
            jobs.append(([p, p], "given", b, 2))
    if ctx.thorough:
        jobs += [([p, q, r], "given", None, 2) for p in OUT for q in OUT for r in OUT]
    ctx.pmap(lambda js, rp: [one(ctx, rp, *j) for j in js], [jobs[i:i + 6] for i in range(0, len(jobs), 6)])


def one(ctx, rep, plan, instance, bad, n):
    I = stubbed(ctx)
    told = "function that %s" % ", then ".join(plan + ["returns"]) + (", with report %d of round %d failing" % (bad[1] + 1, bad[0] + 1) if bad else "")
    for r in ctx.explore(I, scenario(ctx, plan, instance, bad, n)):
        if r.kind == "undecided":
            rep.undecided("reported", told, r.value)
            continue
        if r.kind == "raise":
            rep.violation("contained", "schedule", "%s: %s" % (told, r.value), getattr(r.value, "where", None), path_text(r))
            continue
        for name in ("stats-host", "a.b") if instance == "given" else ("",):
            p = Point(random.Random(1), {NAME: name})
            if on_path(r, p) is not True:
                continue
            try:
                if not follow(rep, told, plan, r, p, name, bad, n):
                    return
            except (NoValue, Unknown) as e:
                rep.undecided("reported", told, e)
                return
            rep.ok("reported", told)


def follow(rep, told, plan, r, p, name, bad, n):
    for k, what in enumerate(plan + ["returns"]):
        evs = []
        on = False
        for e in r.events:
            if e.kind == "mark":
                if e.what == "m%d" % k:
                    on = True
                elif e.what in ("state%d" % k, "end"):
                    on = False
                if e.what == "escaped%d" % k:
                    rep.violation("contained", what, "%s: the scheduled call of round %d raises %s, which stops it" % (told, k + 1, e.args[0][1]), None, path_text(r))
                    return False
            elif on:
                evs.append(e)
        marks = [e for e in r.events if e.kind == "mark" and e.what == "state%d" % k]
        if not marks:
            return True
        at = "%s: in round %d" % (told, k + 1)
        called = calls(evs, "cfg.function")
        for e in evs:
            if e.kind == "loop" and any(callname(x).endswith(("cfg.report", "cfg.function")) for x in all_events([e]) if x.kind == "call"):
                raise Unknown("a loop of unknown length")
        reports = [e for e in all_events(evs) if e.kind == "call" and callname(e).endswith("cfg.report)") or e.kind == "call" and callname(e).endswith("cfg.report")]
        errs = [e for e in all_events(evs) if e.kind == "call" and "twisted.python.log.err" in callname(e)]
        st = marks[0].args[0][1]
        failed = what in ("raises", "fails later", "failed", "nothing") or bad is not None and bad[0] == k
        if st == "unknown":
            raise Unknown("what the scheduler gets")
        if st == "pending":
            rep.violation("contained", "%s:pending" % what, "%s the scheduler waits for ever" % at, None, path_text(r))
            return False
        if st == "bad":
            rep.violation("contained", what, "%s the scheduler gets the failure, which stops the function being called" % at, None, path_text(r))
            return False
        if failed and not errs:
            rep.violation("logged", what, "%s the failure is not logged" % at, None, path_text(r))
            return False
        if len(errs) > (1 if failed else 0):
            rep.violation("logged", "%s:count" % what, "%s %d errors are logged" % (at, len(errs)), errs[0].where, path_text(r))
            return False
        got = []
        for e in reports:
            if len(e.args) != 2:
                raise Unknown("report with %d arguments" % len(e.args))
            got.append((value(p, e.args[0]), show(e.args[1])))
        want = [((name + "." if name else "") + KEYS[i + k % 2], show(V(k, i))) for i in range(n)] if what in ("returns", "later") else []
        if bad is not None and bad[0] == k:
            if len(got) > len(want) or any(g not in want for g in got) or len(set(got)) != len(got):
                rep.violation("reported", what, "%s %s is reported" % (at, got), reports[0].where if reports else None, path_text(r))
                return False
            continue
        if sorted(got) != sorted(want):
            rep.violation("reported", what, "%s %s is reported instead of %s" % (at, sorted(got), sorted(want)), reports[0].where if reports else None, path_text(r))
            return False
    return True
