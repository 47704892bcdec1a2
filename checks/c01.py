"""C01: every abstract path of process(message), for an arbitrary message and an arbitrary
reachable state of each processor kind, is enumerated with the condition under which it is taken;
no path may raise, a path that a malformed message can take logs it exactly once and has no net
effect on an aggregate.  Whether a message takes a path is decided by interpreting the path's
condition; entailment of the specification by the condition is counted as discharged."""
from checks.common import *

ASSUMPTIONS = ["the clock and the random generator do not raise", "messages are byte strings",
               "plugins are the bundled ones"]


def run(ctx, rep):
    corpus = message_corpus(ctx.seed, ctx.thorough)
    rep.facts["message_classes"] = len(corpus)
    for kind in KINDS:
        S = ProcessorSummary(ctx, kind)
        check(ctx, rep, kind, S, corpus)


def check(ctx, rep, kind, S, corpus):
    M = Matcher(ctx.seed, corpus)
    covered = set()
    rep.anchor(len(S.paths) > 8, "process of the %s processor has fewer paths than any version could" % kind)
    plugin_class = {}
    for i, r in enumerate(S.paths):
        subj = "%s.process" % kind
        if r.kind == "undecided":
            rep.undecided("no-exception", subj, r.value)
            continue
        msgs, opaque, other = M.messages(r)
        covered |= set(msgs)
        if r.kind == "raise":
            e = r.value
            where = getattr(e, "where", None)
            if msgs:
                rep.violation("no-exception", "%s:%s" % (subj, excname(e.exc)),
                              "%s escapes processing of the message %r: %s" % (excname(e.exc), msgs[0], str(e)[:300]),
                              where, path_text(r))
            else:
                rep.undecided("no-exception", subj, "%s on a path no message is known to take" % e)
            continue
        rep.ok("no-exception", "path %d of %s returns" % (i, subj))
        logs, more = bad_line_logs(r)
        eff = [f for f in effects(r) if label_in(f.label, AGGREGATES) and not f.fresh]
        # entries created for the message
        bad = [(m, spec_classify(kind, m)) for m in msgs]
        wrong = [(m, c) for m, c in bad if c[0] == "bad"]
        if wrong:
            m, c = wrong[0]
            fn = next((e.fn for e in r.events if e.kind == "write"), subj)
            if logs != 1 or more:
                rep.violation("bad-line-logged-once", "%s:%s" % (subj, c[1]),
                              "the malformed message %r (%s) is logged %s times" % (m, c[1], logs if not more else "many"),
                              r.events[-1].where if r.events else None, path_text(r))
            else:
                rep.ok("bad-line-logged-once", "%r" % m)
            if eff:
                f = eff[0]
                rep.violation("bad-line-changes-nothing", "%s:%s:%s" % (subj, c[1], f.label),
                              "the malformed message %r (%s) changes %s" % (m, c[1], f), f.where, path_text(r))
            else:
                rep.ok("bad-line-changes-nothing", "%r" % m)
        good = [(m, c) for m, c in bad if c[0] == "good"]
        if good and logs and eff:
            rep.violation("bad-line-changes-nothing", "%s:partly" % subj,
                          "the message %r is logged as bad but changes %s" % (good[0][0], eff[0]), eff[0].where, path_text(r))
        elif good and logs > 1:
            rep.violation("bad-line-logged-once", "%s:twice" % subj, "the message %r is logged %d times" % (good[0][0], logs),
                          None, path_text(r))
        # a plugin sample for a name of another plugin
        if good and good[0][1][2] not in BUILTIN_TYPES:
            t = good[0][1][2]
            olds = set()
            for f in effects(r):
                if f.what in ("attr",) and label_in(f.label, ("plugin_metrics",)) and f.target[0] == "obj":
                    o = r.state.heap.peek(f.target[1])
                    if (o.extra or {}).get("mat"):
                        olds.add(o.cls)
                    else:
                        plugin_class.setdefault(o.cls, t)
            for c in olds:
                plugin_class.setdefault((c, "old"), []).append((t, r))
    for k, v in plugin_class.items():
        if isinstance(k, tuple):
            for t, r in v:
                owner = plugin_class.get(k[0])
                if owner is None:
                    continue
                if owner != t:
                    rep.violation("plugin-name-owned", "%s:%s" % (kind, k[0]), "a %r sample changes a metric of class %s, which belongs to %r"
                                  % (t, k[0], owner), None, path_text(r))
                else:
                    rep.ok("plugin-name-owned", "%s %s" % (t, k[0]))
    missing = [m for m in corpus if m not in covered]
    rep.facts.setdefault("messages_on_a_path", {})[kind] = len(covered)
    if missing:
        rep.undecided("coverage", "%s.process" % kind, "no decided path for %d message classes, e.g. %r" % (len(missing), missing[0]))
    else:
        rep.ok("coverage", "every message class takes a path")
