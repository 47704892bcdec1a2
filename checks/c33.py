"""C33: the loop of the reactor inspector is interpreted over schedules of a reactor that answers none, the oldest or
all of the requests that wait for it, at any point of each round; what is reported in each round is compared with the delays."""
import itertools
from checks.c18 import *

TECHNIQUE = "static analysis: abstract interpretation of the inspector's loop over all bounded schedules of the reactor; the figure of each round is compared with the delay of the requests"
ASSUMPTIONS = ["the reactor answers requests in the order they were made", "the clock advances"]
FILE = "txstatsd/report.py"
STEP = 0.001


def note(I, what, args):
    I.event("mark", what, args)
    return NONE


def scenario(ctx, rounds, loop_time, probe):
    def sc(I):
        now = [1000.0]
        pending, done = [], []
        turn = [0]
        queue(I)

        def clock(I, a, kw, n):
            now[0] += STEP
            return const(now[0])
        I.cfg.ext["time.time"] = clock
        I.cfg.opaque_attrs["ident"] = lambda I, o, n: const(7)
        I.cfg.ext["sys._current_frames"] = lambda I, a, kw, n: I.new_dict()

        def ask(I, a, kw, n):
            pending.append((now[0], a[0], list(a[1:]), dict(kw)))
            I.event("mark", "ask", [const(now[0])])
            return NONE

        def sleep(I, a, kw, n):
            v = a[0] if a else NONE
            if not (is_const(v) and abs(float(v[1]) - loop_time) < 1e-6):
                I.event("mark", "slept", [v])
            start = now[0]
            k, part = rounds[turn[0]]
            now[0] = start + loop_time * part
            for _ in range(len(pending) if k == "all" else k):
                if not pending:
                    break
                sent, f, args, kws = pending.pop(0)
                I.call(f, args, kws, None)
                I.event("mark", "answered", [const(sent), const(now[0])])
                now[0] += STEP
            now[0] = max(now[0], start + loop_time)
            turn[0] += 1
            I.event("mark", "round", [const(now[0])])
            for p in pending:
                I.event("mark", "waiting", [const(p[0])])
            if turn[0] == len(rounds):
                I.call(I.getattr(done[0], "stop", None), [], {}, None)
            elif turn[0] > len(rounds):
                raise PyRaise("SystemExit", n, "a round after the inspector was stopped", where=I.where(n))
            return NONE
        I.cfg.ext["cfg.ask"] = ask
        I.cfg.ext["time.sleep"] = sleep
        I.cfg.ext["cfg.log"] = lambda I, a, kw, n: note(I, "log", [kw.get("logLevel", a[1] if len(a) > 1 else NONE)])
        I.cfg.opaque_methods["gauge"] = lambda I, o, a, kw, n: note(I, "gauge", [const(show(o))] + list(a) + [x for _, x in sorted(kw.items())])
        kw = {} if loop_time == 3 and probe else {"loop_time": const(loop_time)}
        kw["log"] = ("x", "cfg.log")
        o = I.call(ctx.need_class(I, "txstatsd.report", "ReactorInspector"), [("x", "cfg.ask"), sym("cfg:metrics", "obj")], kw, None)
        done.append(o)
        I.call(I.getattr(o, "start", None), [], {}, None)
        I.event("mark", "begin", [const(now[0])])
        I.call(I.getattr(o, "run", None), [], {}, None)
    return sc


def number(t):
    return float(t[1]) if is_const(t) and isinstance(t[1], (int, float, Fraction)) and not isinstance(t[1], bool) else None


def judge_path(rep, r, rounds, loop_time, told):
    """None, or (rule, message)."""
    if any(e.kind == "loop" for e in r.events):
        raise Unknown("rounds in a loop that is not followed")
    asked = [e for e in r.events if e.kind == "mark" and e.what == "ask"]
    slept = [e for e in r.events if e.kind == "mark" and e.what == "slept"]
    if slept:
        v = number(slept[0].args[0])
        if v is None:
            raise Unknown("a sleep of %s" % show(slept[0].args[0])[:60])
        return "pace", "a round lasts %s seconds instead of %s" % (v, loop_time)
    # split into rounds: what is answered before the round's mark, what is reported after it
    last_seen = None       # when the answers were last looked at with something there
    answered, waiting, now, figures, logs, seen = [], [], None, [], [], []
    out = []

    def close():
        if now is not None:
            out.append((now, list(ans), list(waiting), list(figures), list(logs)))
    ans = []
    for e in r.events:
        if e.kind != "mark":
            continue
        if e.what == "answered":
            answered.append((number(e.args[0]), number(e.args[1])))
        elif e.what == "round":
            close()
            now, ans, answered, waiting, figures, logs = number(e.args[0]), answered, [], [], [], []
        elif e.what == "waiting":
            waiting.append(number(e.args[0]))
        elif e.what == "gauge" and now is not None:
            figures.append(e.args)
        elif e.what == "log" and now is not None:
            logs.append(e.args[0])
    close()
    if len(out) != len(rounds):
        return "rounds", "%d rounds are made until the inspector is stopped in round %d" % (len(out), len(rounds))
    if len(asked) != len(rounds):
        return "rounds", "%d requests are made in %d rounds" % (len(asked), len(rounds))
    fresh = []              # requests made since answers were last found
    sent = [number(e.args[0]) for e in asked]
    for k, (now, ans, waiting, figures, logs) in enumerate(out):
        fresh.append(sent[k])
        at = "round %d" % (k + 1)
        if len(figures) != 1:
            return "figure", "%s reports %d figures" % (at, len(figures))
        name, v = figures[0][1], figures[0][2] if len(figures[0]) > 2 else None
        if name != const("delay"):
            if not is_const(name):
                raise Unknown("the figure %s" % show(name)[:60])
            return "figure", "%s reports %s instead of the delay" % (at, name[1])
        v = number(v) if v is not None else None
        if v is None:
            raise Unknown("the delay in %s" % at)
        slack = 0.05
        if ans:
            want = ans[0][1] - ans[0][0]
            if abs(v - want) > slack:
                return "delay", "%s reports a delay of %.2f although the oldest request answered in it took %.2f" % (at, v, want)
            fresh = []
        else:
            lo, hi = now - fresh[0], now - min(waiting)
            if not lo - slack <= v <= hi + slack:
                return "delay", "%s reports a delay of %.2f although the reactor has not answered for %s" % (
                    at, v, "%.2f" % lo if abs(hi - lo) < slack else "%.2f to %.2f" % (lo, hi))
        critical = [x for x in logs if show(x).endswith("CRITICAL") or is_const(x) and x[1] == 50]
        if bool(critical) != (not ans):
            return "alarm", "%s %s a critical message although the reactor has %sanswered" % (at, "logs" if critical else "does not log", "" if ans else "not ")
    return None


def one(ctx, rep, rounds, loop_time, probe):
    told = "%gs rounds: %s" % (loop_time, ", ".join("no answer" if k == 0 else "%s answered after %d%%" % ("all" if k == "all" else "the oldest", 100 * p) for k, p in rounds))
    I = stubbed(ctx)
    I.cfg.unroll, I.cfg.unroll_true = 40, True
    for r in ctx.explore(I, scenario(ctx, rounds, loop_time, probe)):
        if r.kind == "undecided":
            rep.undecided("inspector", told, r.value)
            return
        if r.kind == "raise":
            rep.violation("inspector", "raise", "%s: raises %s" % (told, r.value), getattr(r.value, "where", None) or FILE, path_text(r))
            return
        try:
            bad = judge_path(rep, r, rounds, loop_time, told)
        except Unknown as e:
            rep.undecided("inspector", told, str(e))
            return
        if bad:
            rep.violation("inspector", bad[0], "%s: %s" % (told, bad[1]), FILE, path_text(r))
            return
    rep.ok("inspector", told)


def run(ctx, rep):
    jobs = []
    kinds = [(0, 0), (1, 0.5), ("all", 0.25)]
    for n in range(1, 7 if ctx.thorough else 6):
        for c in itertools.product(kinds, repeat=n):
            jobs.append((list(c), 3, n % 2))
    for c in itertools.product([(0, 0), (2, 0.9), ("all", 0.0), (1, 1.0)], repeat=4):
        jobs.append((list(c), 7, False))
    ctx.pmap(lambda js, rp: [one(ctx, rp, *j) for j in js], [jobs[i::16] for i in range(16)])
