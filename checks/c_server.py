"""Server channel component: S01-S05 (and F01 on server connections)."""
import json
import vt

PROPS = ["S01", "S02", "S03", "S04", "S05", "F01"]
SERVER = lambda p: not p.startswith("client/") and not p.startswith("server/db/") and "Asio" not in p and "Manager" not in p
ASSUMPTIONS = ["the executor runs its actions one at a time, in the order in which they were posted",
               "answers of sessions stay within the protocol's size limits; frames longer than the protocol allows are sent to unregistered units only"]
MUTANTS = {"S01": ["cross", "tid", "twice"], "S02": ["keepold", "twice"], "S03": ["lax"], "S04": ["tid"], "S05": ["deaf", "latestart", "keepsess"], "F01": ["onebuf"]}


def W(n):
    return [(n >> 8) & 255, n & 255]


def frame(tid, unit, pdu, proto=0, length=None):
    return W(tid) + W(proto) + W(len(pdu) + 1 if length is None else length) + [unit] + pdu


def pack(vs):
    out = [0] * ((len(vs) + 7) // 8)
    for i, v in enumerate(vs):
        out[i // 8] |= v << (i % 8)
    return out


def request(r, fn, a):
    if fn <= 4:
        mx = 2000 if fn <= 2 else 125
        return [fn] + W(a) + W(r.choice([1, 1, 2, 7, 8, 9, 16, mx - 1, mx]))
    if fn == 5:
        return [5] + W(a) + r.choice([[255, 0], [0, 0]])
    if fn == 6:
        return [6] + W(a) + W(r.choice([0, 1, 255, 256, 65535, r.randrange(65536)]))
    mx = 1968 if fn == 15 else 123
    n = r.choice([1, 2, 7, 8, 9, 16, 17, 40, mx, mx - 1])
    if fn == 15:
        vs = pack([r.randrange(2) for _ in range(n)])
        if n % 8 and r.random() < 0.3:
            vs[-1] |= 0xFF & ~((1 << (n % 8)) - 1)      # padding bits are not values
        return [15] + W(a) + W(n) + [len(vs)] + vs
    return [16] + W(a) + W(n) + [2 * n] + [r.randrange(256) for _ in range(2 * n)]


def broken(r, fn, a):
    """A request that is wrong in one way or several."""
    p = request(r, fn, a)
    for _ in range(r.choice([1, 1, 1, 2])):
        x = r.random()
        if x < 0.25:
            p = p[:r.randrange(0, len(p) + 1)]
        elif x < 0.45:
            p = p + [r.randrange(256) for _ in range(r.choice([1, 1, 2, 3]))]
        elif x < 0.65 and len(p) >= 5:
            p = p[:3] + W(r.choice([0, 1, 126, 124, 125, 1969, 2000, 2001, 65535, 65280, 255, 32768])) + p[5:]
        elif x < 0.85 and len(p) >= 6:
            p = p[:5] + [(p[5] + r.choice([1, 255, 2, 254, 128])) % 256] + p[6:]
        elif len(p):
            i = r.randrange(len(p))
            p = p[:i] + [r.randrange(256)] + p[i + 1:]
    return p[:253]


ODD = [0, 7, 8, 9, 11, 12, 13, 14, 17, 20, 22, 23, 24, 43, 65, 100, 127, 128, 129, 131, 144, 200, 255]


def programmed(r, fn, quick):
    x = r.random()
    if x < 0.3:
        a = {"exc": r.choice([1, 2, 3, 4, 5, 6, 8, 10, 11])}
        if r.random() < 0.3:
            a["user"] = 1
        return a
    if x < 0.4:
        return {"oth": r.randrange(7)}
    if x < 0.5:
        return {"def": 1}
    if x < 0.55:
        return None
    if fn <= 4:
        n = r.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 124, 125] + ([1999, 2000, 1000] if fn <= 2 else []))
        return {"vs": [r.randrange(2) if fn <= 2 else r.choice([0, 1, 255, 256, 65535, r.randrange(65536)]) for _ in range(n)]}
    a = {"a": r.choice([0, 1, 255, 256, 65535, r.randrange(65536)])}
    if fn <= 6:
        a["x"] = r.randrange(2) if fn == 5 else r.choice([0, 1, 255, 256, 65535])
    else:
        a["n"] = r.choice([0, 1, 2, 255, 256, 1968, 65535])
    return a


FN = [1, 2, 3, 4, 5, 6, 15, 16]


def history(r, id, n, prop):
    units = r.sample([0, 1, 2, 17, 127, 128, 247, 254, 255], 4)
    dead = 99
    ops = []
    calls = []
    nconn = 0
    conns = []
    addrs = r.sample(list(range(65536)), 400) + [0, 1, 255, 256, 65534, 65535]
    k = 0
    held = {}

    def api(shutp):
        x = r.random()
        if x < shutp:
            return {"o": "shut"}
        if x < 0.1 + shutp:
            return {"o": "start"}
        return {"o": "add", "u": r.choice(units[:3]), "s": r.choice([1, 2, 3])}

    def one_frame():
        nonlocal k
        k += 1
        a = addrs[k % len(addrs)]
        u = r.choice(units) if r.random() < 0.97 else dead
        x = r.random()
        fn = r.choice(FN)
        tid = r.choice([k, k, k, 0, 65535, 256 + k, r.randrange(65536)])
        if x < 0.6:
            return frame(tid, u, request(r, fn, a))
        if x < 0.85:
            return frame(tid, u, broken(r, fn, a))
        if x < 0.92:
            return frame(tid, u, [r.choice(ODD)] + [r.randrange(256) for _ in range(r.choice([0, 0, 1, 4, 8]))])
        if x < 0.95:
            return frame(tid, u, request(r, fn, a), proto=r.choice([1, 256, 65535]))
        if x < 0.97:
            return frame(tid, u, [], length=0)
        if x < 0.98:
            return frame(tid, u, [])
        if x < 0.99:
            return frame(tid, dead, [3] * r.choice([254, 255, 300, 511]))
        return frame(tid, u, [fn] + [r.randrange(256) for _ in range(252)])

    pre = [{"o": "add", "u": u, "s": i + 1} for i, u in enumerate(units[:r.choice([1, 2, 3])])]
    pre.insert(r.randrange(len(pre) + 1), {"o": "start"})
    ops += pre + [{"o": "run"}]
    shutp = 0.25 if prop == "S05" else 0.05
    if r.random() < 0.1:
        ops = pre
    for _ in range(n):
        x = r.random()
        if x < 0.12 and len(conns) < 3:
            nconn += 1
            ops.append({"o": "conn", "c": nconn})
            conns.append(nconn)
        elif x < 0.15 and conns:
            c = r.choice(conns)
            conns.remove(c)
            ops.append({"o": "gone", "c": c, "err": r.choice([0, 1])})
        elif x < 0.3:
            ops.append(api(shutp))
            if r.random() < 0.6:
                ops.append({"o": "run", "n": r.choice([1, 1, 5])})
        elif x < 0.42:
            fn = r.choice(FN)
            o = {"o": "prog", "s": r.choice([1, 2, 3]), "fn": fn, "ans": programmed(r, fn, True)}
            if r.random() < 0.1:
                o["on"] = [api(shutp / 2)]
            ops.append(o)
        elif x < 0.5:
            ops.append({"o": "run", "n": r.choice([1, 2, 100])})
        elif conns:
            c = r.choice(conns)
            b = []
            for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
                b += one_frame()
            o = {"o": "rx", "c": c, "b": b}
            y = r.random()
            if y < 0.25:
                o["cut"] = [r.choice([1, 1, 2, 5, 6, 7, 8, 11, 12]) for _ in range(r.choice([1, 2, 4, 8]))]
            elif y < 0.28:
                o["cut"] = [1] * len(b)
            elif y < 0.4:
                o["hold"] = r.randrange(1, 13)
            ops.append(o)
    ops.append({"o": "run"})
    if r.random() < (0.9 if prop == "S05" else 0.4):
        ops += [{"o": "shut"}, {"o": "run", "n": r.choice([0, 1])}]
        ops += [{"o": "rx", "c": c, "b": one_frame()} for c in conns]
        ops += [{"o": "start"}, {"o": "add", "u": units[0], "s": 3}, {"o": "shut"}, {"o": "run"}]
        ops += [{"o": "rx", "c": c, "b": one_frame()} for c in conns] + [{"o": "start"}, {"o": "add", "u": units[0], "s": 2}, {"o": "run"}]
    return {"id": id, "ops": ops}


def lifecycles():
    """Every order of a few API calls with the actions they post."""
    out = []
    A = {"o": "add", "u": 1, "s": 1}
    A2 = {"o": "add", "u": 1, "s": 2}
    B = {"o": "add", "u": 2, "s": 2}
    q = lambda tid, u: {"o": "rx", "c": 1, "b": frame(tid, u, [3, 0, tid, 0, 1])}
    S, X, R = {"o": "start"}, {"o": "shut"}, {"o": "run", "n": 1}
    C = {"o": "conn", "c": 1}
    for pos in range(5):
        for n in range(5):
            base = [S, A, B, A2]
            base.insert(pos, X)
            out.append(base + [R] * n + [C, q(1, 1), {"o": "run"}, q(2, 1), q(3, 2), S, A, {"o": "run"}, q(4, 1)])
            out.append([S, A, {"o": "run"}, C, q(9, 1)] + base + [R] * n + [q(1, 1), q(5, 2), {"o": "run"}, q(2, 1), q(3, 2), S, A, X, {"o": "run"}, q(4, 1)])
    for n in range(4):
        out.append([S, A, {"o": "run"}, C, q(1, 1), A2, q(2, 1)] + [R] * n + [q(3, 1), A, {"o": "run"}, q(4, 1), A2, A, A2, {"o": "run"}, q(5, 1), X, {"o": "run"}, q(6, 1)])
    # from inside a callback
    for ops in ([X], [A2], [A2, X], [X, A2, S], [S]):
        out.append([S, A, {"o": "run"}, C, {"o": "prog", "s": 1, "on": ops}, {"o": "rx", "c": 1, "b": frame(1, 1, [3, 0, 1, 0, 1]) + frame(2, 1, [3, 0, 2, 0, 1])}, q(3, 1), {"o": "run"}, q(4, 1)])
    return [{"id": "l%d" % i, "ops": o} for i, o in enumerate(out)]


def per_function(r, prop):
    """Each function with each kind of answer and with systematic damage to the request."""
    out = []
    for fn in FN:
        ops = [{"o": "start"}, {"o": "add", "u": 17, "s": 1}, {"o": "run"}, {"o": "conn", "c": 1}]
        tid = 0
        p0 = request(r, fn, 4660)
        small = {15: [15, 18, 52, 0, 10, 2, 205, 1], 16: [16, 18, 52, 0, 2, 4, 0, 10, 1, 2]}.get(fn, [fn] + W(4660) + ([255, 0] if fn == 5 else [0, 3]))
        cases = [small[:i] for i in range(len(small) + 1)] + [small + [0] * i for i in range(1, 4)] + [p0]
        for i in range(len(small)):
            for d in (1, 255, 128, 16):
                cases.append(small[:i] + [(small[i] + d) % 256] + small[i + 1:])
        for x in (0, 1, 255, 256, 65279, 65280, 65281, 65535):
            cases.append([fn] + W(9) + W(x) + small[5:])
        for a in (0, 1, 255, 256, 32767, 32768, 65280, 65533, 65534, 65535):
            cases.append([fn] + W(a) + small[3:])
            if fn <= 4:
                cases += [[fn] + W(a) + W(n) for n in (1, 2, 9, 125)]
        for c in cases:
            tid += 1
            ops.append({"o": "rx", "c": 1, "b": frame(tid, 17, c)})
        out.append(ops)
        ops = ops[:4]
        answers = [{"exc": c} for c in (1, 2, 3, 4, 5, 6, 8, 10, 11)] + [{"oth": k} for k in range(7)] + [{"exc": 6, "user": 1}, {"def": 1}]
        if fn <= 4:
            for n in list(range(0, 35)) + ([1999, 2000, 1992] if fn <= 2 else [124, 125]):
                answers.append({"vs": [(i * 5 + n) % 3 % 2 if fn <= 2 else (i * 4099 + n) % 65536 for i in range(n)]})
                answers.append({"vs": [1 if fn <= 2 else 65535] * n})
        else:
            for a in (0, 1, 255, 256, 258, 32768, 65535):
                for v in ((0, 1) if fn == 5 else (0, 1, 255, 256, 65280, 65535)):
                    answers.append({"a": a, "n" if fn > 6 else "x": v})
        for a in answers:
            tid += 1
            ops = ops + [{"o": "prog", "s": 1, "fn": fn, "ans": a}, {"o": "rx", "c": 1, "b": frame(tid, 17, small)}]
        out.append(ops)
    ops = [{"o": "start"}, {"o": "add", "u": 17, "s": 1}, {"o": "run"}, {"o": "conn", "c": 1}]
    for f in range(256):
        for tail in ([], [0, 0, 0, 1], [0, 1, 255, 0]):
            ops.append({"o": "rx", "c": 1, "b": frame(f, 17, [f] + tail)})
    out.append(ops)
    # all units
    ops = [{"o": "start"}] + [{"o": "add", "u": u, "s": 1 + u % 5} for u in range(0, 256, 2)] + [{"o": "run"}, {"o": "conn", "c": 1}, {"o": "conn", "c": 2}]
    for u in range(256):
        ops.append({"o": "rx", "c": 1 + u % 2, "b": frame(u * 251 % 65536, u, [3, 1, u, 0, 1])})
    out.append(ops)
    return [{"id": "f%d" % i, "ops": o} for i, o in enumerate(out)]


def sweeps(q):
    out = []
    pre = [{"o": "start"}, {"o": "add", "u": 17, "s": 1}, {"o": "run"}, {"o": "conn", "c": 1}]

    def sw(fn, lo, hi, **kw):
        out.append({"id": "s%d" % len(out), "ops": pre + [dict({"o": "sweep", "c": 1, "u": 17, "fn": fn, "lo": lo, "hi": hi}, **kw)]})

    for fn in (1, 2, 3, 4):
        sw(fn, 0, 65535)
        sw(fn, 0, 300, dlen=1)
        sw(fn, 0, 300, dlen=-1)
    for fn, top in ((15, 2100), (16, 400)):
        for dbc in (0, 1, -1, 8, 128):
            for dlen in (0, 1, -1, 2):
                sw(fn, 0, top, dbc=dbc, dlen=dlen)
        sw(fn, 65000 if q else 2000, 65535)
    # addresses up to the end of the address space, for the smallest and the largest quantities
    for fn in FN:
        ns = {1: [1, 2, 2000], 2: [1, 2, 2000], 3: [1, 2, 125], 4: [1, 2, 125], 5: [0, 0xFF00], 6: [0, 1, 65535], 15: [1, 2, 1968], 16: [1, 2, 123]}[fn]
        for n in ns:
            lo = 0 if fn <= 6 and n <= 2 else (65536 - 2200 if fn <= 6 or not q else 65300)
            sw(fn, lo, 65535, a=n, ax=1)
        if fn in (5, 6):
            for a in (0, 7, 65534, 65535):
                sw(fn, 0, 65535, a=a)
        for a in (0, 255, 256, 65535, 65534, 65536 - 125, 65536 - 126):
            sw(fn, 0, 2010 if fn <= 2 else 130, a=a)
    return out


def run(prop, tier, cov):
    q = tier == "quick"
    r = vt.rng("server", prop)
    exe = vt.build("h_server", ["h_server.cpp"], opt="-O1", extra=("-fsanitize=address", "-fno-omit-frame-pointer"), only=SERVER)
    m = vt.model_check("MC_Server", consts=None if q else {"MaxOps": "11"})
    cov["states"] += m.distinct
    cov["transitions"] += m.generated
    for mut in MUTANTS[prop][:1 if q else 9]:
        n = vt.tlc("MC_Server", consts={"Mut": '"%s"' % mut}, args=("-deadlock",))
        if n.ok or "is violated" not in n.out:
            raise vt.CheckError("the deviation %s of the design is not rejected: the specification is vacuous\n%s" % (mut, n.out[-2000:]))
    d = vt.tlc("MC_Server", consts={"Dump": "TRUE", "MaxOps": "7" if q else "9"}, workers=1, args=("-deadlock",))
    if not d.ok:
        raise vt.CheckError("dump failed\n" + d.out[-2000:])
    paths = [json.loads(x) for x in d.printed]
    limit = 4000 if q else 60000
    if len(paths) > limit:
        paths = r.sample(paths, limit)
    prog = [{"o": "prog", "s": 2, "fn": 3, "ans": {"exc": 4}}, {"o": "prog", "s": 2, "fn": 6, "ans": {"exc": 4}}, {"o": "prog", "s": 1, "fn": 6, "ans": {"oth": 0}}]
    scs = [{"id": "m%d" % i, "ops": prog + p + [{"o": "run"}]} for i, p in enumerate(paths)]
    scs += lifecycles()
    scs += per_function(r, prop)
    if prop == "S03":
        scs += sweeps(q)
    scs += [history(r, "r%d" % i, r.choice([20, 40, 80]), prop) for i in range(250 if q else 5000)]
    vt.decide(prop, cov, exe, scs, "Trace_Server", harness_env={"ASAN_OPTIONS": "detect_leaks=0"})
    cov["rule"] = ("every transition of the bounded model of the server channel, sampled to the tier's limit; every position of a shutdown among API calls; each function with every "
                   "kind of answer and systematic damage of its request; for S03 every quantity of every read and multiple write; seeded random histories over several connections")
