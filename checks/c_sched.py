"""Scheduled requests and session timers: P01-P03."""
import json
import vt
import c_client

PROPS = ["P01", "P02", "P03"]
ASSUMPTIONS = ["the executor runs its actions one at a time, in the order in which they were posted; the action of an expired timer is posted when the time has passed",
               "nothing is scheduled or started on a session after its shutdown was requested (the interface forbids it)"]
MUTANTS = {"P01": ["twoloops", "oldfreq"], "P02": ["stray", "nocancel", "freqnow"], "P03": ["keeptimer"]}


def from_model(hist):
    ops, on, n = [], [], 0
    for o in hist:
        o = dict(o)
        if o["o"] in ("start", "stop", "freq", "get"):
            o["k"] = 1
        elif o["o"] == "comp":
            n += 1
            re = o.pop("re")
            if re != "none":
                on.append({"o": re, "k": 1, "nth": n, "per": 5})
        elif o["o"] in ("tset", "sshut"):
            o["s"] = 1
        ops.append(o)
    return [{"o": "open", "s": 1, "u": 17, "to": 100}, {"o": "sch", "s": 1, "k": 1, "rq": {"fn": 3, "a": 1, "n": 1}, "per": 2, "on": on}] + ops


def tail(k=1, n=3):
    out = [{"o": "run"}]
    for _ in range(n):
        out += [{"o": "comp", "k": k}, {"o": "run"}, {"o": "advto", "less": 1}, {"o": "run"}, {"o": "get", "k": k}, {"o": "advto"}, {"o": "run"}]
    return out


FAR = [1000, 65536, 3600000, 86400000, 86400001, 400000000, 500000000]


def far():
    """Timers and periods of hours and days."""
    out = []
    R = {"o": "run"}
    for d in FAR:
        for ab in (0, 1):
            out.append([{"o": "open", "s": 1, "u": 17, "to": 100}, {"o": "tset", "s": 1, "d": d, "abs": ab}, {"o": "texp", "t": 1}, {"o": "tset", "s": 1, "d": d + 1, "abs": ab}, {"o": "tset", "s": 1, "d": d, "abs": ab},
                        {"o": "adv", "ms": d // 2}, R, {"o": "tcancel", "t": 3}, {"o": "adv", "ms": d - d // 2 - 1}, R, {"o": "adv", "ms": 1}, R, {"o": "adv", "ms": 1}, R, {"o": "adv", "ms": 5}, R])
        for re in (None, "freq"):
            on = [{"o": "freq", "k": 1, "per": 5, "nth": 2}] if re else []
            out.append([{"o": "open", "s": 1, "u": 17, "to": 100}, {"o": "sch", "s": 1, "k": 1, "rq": {"fn": 3, "a": 1, "n": 1}, "per": min(d, 500000000), "to": 30, "on": on}] + tail(1, 2))
    # many polls, many timers
    n = 80
    ops = [{"o": "open", "s": 1, "u": 17, "to": 100}, {"o": "open", "s": 2, "u": 18, "to": 100}]
    for k in range(1, n + 1):
        ops.append({"o": "tset", "s": 1 + k % 2, "d": 1 + k * 37 % 50, "abs": k % 3 == 0})
    for k in range(1, n + 1, 4):
        ops.append({"o": "tcancel", "t": k})
    for _ in range(60):
        ops += [{"o": "advto"}, R]
    out.append(ops)
    # many polls: all of them stop with their session, whatever their stage, and only those
    for n in (3, 20, 80):
        for stage in range(4):
            ops = [{"o": "open", "s": 1, "u": 17, "to": 100}, {"o": "open", "s": 2, "u": 18, "to": 100}]
            ops += [{"o": "sch", "s": 2 if k % 5 == 0 else 1, "k": k, "rq": {"fn": 1 + k % 4, "a": k, "n": 1 + k % 3}, "per": 1 + k % 7} for k in range(1, n + 1)]
            if stage:
                ops += [R] + [{"o": "comp", "k": k} for k in range(1, n + 1) if stage > 1 or k % 2] + [{"o": "adv", "ms": stage * 3}]
            if stage == 2:
                ops += [R] + [{"o": "stop", "k": k} for k in range(1, n + 1, 3)] + [R]
            ops += [{"o": "sshut", "s": 1}, R] + [{"o": "get", "k": k} for k in range(1, n + 1)] + [{"o": "adv", "ms": 20}, R] + [{"o": "comp", "k": k} for k in range(1, n + 1)]
            ops += [R, {"o": "adv", "ms": 20}, R] + [{"o": "get", "k": k} for k in range(1, n + 1)] + [{"o": "comp", "k": 5}, R] + tail(5 if n > 5 else 1, 2)
            out.append(ops)
    ops = [{"o": "open", "s": 1, "u": 17, "to": 100}, {"o": "sch", "s": 1, "k": 1, "rq": {"fn": 3, "a": 1, "n": 1}, "per": 10}]
    for i in range(60):
        ops += [R, {"o": "comp", "k": 1, "r": ["val", "tmo", "conn", "malreq"][i % 4]}, R, {"o": "advto", "less": 1}, R, {"o": "advto"}]
    out.append(ops + tail())
    return [{"id": "far%d" % i, "ops": o} for i, o in enumerate(out)]


def history(r, id, n):
    ops = []
    ns = r.choice([1, 1, 2])
    for s in range(1, ns + 1):
        ops.append({"o": "open", "s": s, "u": r.randrange(256), "to": r.choice([50, 100])})
    addrs = r.sample([0, 1, 255, 256, 65535] + list(range(100, 120)), 6)
    polls, dead, ntm = [], set(), 0
    sess = {}

    def ctl(k, nested=False):
        x = r.random()
        if x < 0.4 and sess[k] not in dead:
            return {"o": "start", "k": k}
        if x < 0.75:
            return {"o": "stop", "k": k}
        return {"o": "freq", "k": k, "per": r.choice([0, 1, 3, 10, 20, 100])}

    def sch():
        k = len(polls) + 1
        s = r.randrange(1, ns + 1)
        if s in dead:
            return []
        fn = r.choice([1, 2, 3, 4])
        o = {"o": "sch", "s": s, "k": k, "rq": {"fn": fn, "a": addrs[k], "n": r.choice([1, 2, 9, 16, 125] + ([2000] if fn <= 2 else []))}, "per": r.choice([0, 1, 2, 5, 10, 10])}
        if r.random() < 0.5:
            o["to"] = r.choice([0, 1, 7, 30])
        sess[k] = s
        polls.append(k)
        if r.random() < 0.5:
            o["on"] = []
            for _ in range(r.choice([1, 1, 2, 3])):
                x = ctl(r.choice(polls))
                if x["o"] == "start":                     # the session may be shut down by then
                    x = {"o": "stop", "k": k} if r.random() < 0.5 else {"o": "freq", "k": k, "per": 4}
                x["nth"] = r.choice([1, 1, 2, 3])
                o["on"].append(x)
                if x["o"] == "stop" and r.random() < 0.6 and not shutting:
                    o["on"].append({"o": "start", "k": x["k"], "nth": x["nth"]})
                if r.random() < 0.3:
                    o["on"].append({"o": "get", "k": k})
        return [o]

    shutting = r.random() < 0.25
    ops += sch()
    while not polls:
        ops += sch()
    for _ in range(n):
        x = r.random()
        if x < 0.05 and len(polls) < 5:
            ops += sch()
        elif x < 0.28:
            ops.append(ctl(r.choice(polls)))
        elif x < 0.34:
            ops.append({"o": "get", "k": r.choice(polls)})
        elif x < 0.52:
            ops.append({"o": "run"} if r.random() < 0.6 else {"o": "run", "n": r.choice([1, 1, 2, 3])})
        elif x < 0.70:
            o = {"o": "comp", "k": r.choice(polls), "r": r.choice(["tmo", "val", "val", "conn", "malreq"]), "last": r.choice([0, 0, 1])}
            if r.random() < 0.1:
                o["pdu"] = r.choice([[], [131, 2], [3, 2, 1], [129, 4], [130, 11], [132, 99]])
            ops.append(o)
        elif x < 0.88:
            ops.append({"o": "advto", "less": r.choice([0, 0, 0, 1])} if r.random() < 0.7 else {"o": "adv", "ms": r.choice([1, 2, 5, 10, 50])})
        elif x < 0.94:
            s = r.randrange(1, ns + 1)
            ntm += 1
            o = {"o": "tset", "s": s, "d": r.choice([0, 1, 2, 5, 10, 30, r.choice(FAR)]), "abs": r.choice([0, 1])}
            if r.random() < 0.3:
                k = r.choice(polls)
                o["on"] = [r.choice([{"o": "stop", "k": k}, {"o": "tset", "s": s, "d": 2}, {"o": "tcancel", "t": r.randrange(1, ntm + 1)}])]
            ops.append(o)
        elif x < 0.97 and ntm:
            ops.append({"o": r.choice(["tcancel", "tcancel", "texp"]), "t": r.randrange(1, ntm + 1)})
        elif shutting and x < 0.98:
            s = r.randrange(1, ns + 1)
            if s not in dead:
                dead.add(s)
                ops.append({"o": "sshut", "s": s})
    if len(dead) < ns or ns == 1:
        pass
    for k in polls:
        ops += tail(k, 2)
    return {"id": id, "ops": ops}


def shapes():
    """Stops, starts and period changes at every point of a poll's life, in every short order."""
    import itertools
    out = []
    O = {"S": {"o": "start", "k": 1}, "T": {"o": "stop", "k": 1}, "F": {"o": "freq", "k": 1, "per": 7}, "r": {"o": "run", "n": 1}}
    head = [{"o": "open", "s": 1, "u": 17, "to": 100}]
    sch = {"o": "sch", "s": 1, "k": 1, "rq": {"fn": 3, "a": 1, "n": 1}, "per": 10}
    points = {"queued": [], "sent": [{"o": "run"}], "waiting": [{"o": "run"}, {"o": "comp", "k": 1}, {"o": "adv", "ms": 4}],
              "expired": [{"o": "run"}, {"o": "comp", "k": 1}, {"o": "adv", "ms": 10}]}
    for pn, p in points.items():
        for n in (1, 2, 3, 4):
            for w in itertools.product("STFr", repeat=n):
                if n == 4 and w.count("r") != 1:
                    continue
                out.append(head + [sch] + p + [O[c] for c in w] + tail(1, 2) + [{"o": "comp", "k": 1, "last": 1}] + tail(1, 2))
    # the same from inside the handler, with a second completion of an old request
    for n in (1, 2, 3):
        for w in itertools.product("STF", repeat=n):
            on = [dict(O[c], nth=1) for c in w]
            out.append(head + [dict(sch, on=on)] + [{"o": "run"}] + tail(1, 3))
            out.append(head + [dict(sch, on=on)] + [{"o": "run"}, {"o": "stop", "k": 1}, {"o": "start", "k": 1}, {"o": "run"}, {"o": "comp", "k": 1, "last": 1}, {"o": "run"}, {"o": "comp", "k": 1}] + tail(1, 3))
    return [{"id": "s%d" % i, "ops": o} for i, o in enumerate(out)]


def run(prop, tier, cov):
    q = tier == "quick"
    r = vt.rng("sched", prop)
    exe = vt.build("h_sched", ["h_sched.cpp"], opt="-O1", extra=("-fsanitize=address", "-fno-omit-frame-pointer"), only=c_client.CLIENT)
    m = vt.model_check("MC_Sched", consts=None if q else {"MaxOps": "10"}, timeout=850)
    cov["states"] += m.distinct
    cov["transitions"] += m.generated
    for mut in MUTANTS[prop][:1 if q else 9]:
        n = vt.tlc("MC_Sched", consts={"Mut": '"%s"' % mut}, args=("-deadlock",))
        if n.ok or "is violated" not in n.out:
            raise vt.CheckError("the deviation %s of the design is not rejected: the specification is vacuous\n%s" % (mut, n.out[-2000:]))
    d = vt.tlc("MC_Sched", consts={"Dump": "TRUE", "MaxOps": "6" if q else "7", "MaxTimers": "2" if prop == "P03" else "0"}, workers=1, args=("-deadlock",))
    if not d.ok:
        raise vt.CheckError("dump failed\n" + d.out[-2000:])
    paths = [json.loads(x) for x in d.printed]
    limit = 6000 if q else 60000
    if len(paths) > limit:
        paths = r.sample(paths, limit)
    scs = [{"id": "m%d" % i, "ops": from_model(p) + tail(1, 3)} for i, p in enumerate(paths)]
    scs += shapes() + far()
    scs += [history(r, "r%d" % i, r.choice([20, 40, 80])) for i in range(500 if q else 8000)]
    vt.decide(prop, cov, exe, scs, "Trace_Sched", harness_env={"ASAN_OPTIONS": "detect_leaks=0"})
    cov["rule"] = ("every transition of the bounded model of polling and session timers, sampled to the tier's limit; every word of up to four starts, stops, period changes and "
                   "single steps of the executor at each stage of a poll; seeded random histories of several polls and timers")
