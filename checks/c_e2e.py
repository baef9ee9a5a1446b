"""The whole stack: Y01 (clients, a server and a database over loopback), and M01 with the manager's own threads."""
import json

import vt
from c_tcp import S

PROPS = ["Y01", "M01"]
ASSUMPTIONS = ["the histories of the threaded runs depend on the machine's scheduling; the stepped runs are deterministic"]
BITS = ("co", "di")
FNS = {"co": (1, 5, 15), "di": (2,), "hr": (3, 6, 16), "ir": (4,)}


def cells(r):
    """Cells of a database: two blocks per table with a hole, and the end of the address space."""
    out = []
    for t in ("co", "di", "hr", "ir"):
        for a, n in ((5, r.choice([3, 4, 8, 9])), (20, r.choice([1, 2])), (65534, 2), (300, r.choice([0, 0, 0, 125]))):
            out += [{"t": t, "a": a + i, "v": r.randrange(2) if t in BITS else r.choice([0, 1, 255, 256, 65535, r.randrange(65536)])} for i in range(n)]
    return out


PROBES = [[t, a] for t in ("co", "di", "hr", "ir") for a in (4, 5, 6, 7, 8, 12, 14, 20, 21, 30, 0, 65534, 65535, 300, 424)]


def rq(r, k):
    t = r.choice(["co", "co", "hr", "hr", "hr", "di", "ir"])
    fn = r.choice(FNS[t])
    bit = t in BITS
    a, n = r.choice([(5, 1), (5, 2), (5, 3), (6, 2), (7, 1), (5, 8), (5, 9), (20, 1), (20, 2), (65534, 2), (65535, 1), (4, 2), (30, 1), (300, 125), (300, 60), (6, 5), (0, 1)])
    if fn <= 4:
        return {"fn": fn, "a": a, "n": n}
    v = lambda: r.randrange(2) if bit else (k * 7 + r.randrange(3)) % 65536
    if fn <= 6:
        return {"fn": fn, "a": a, "x": v()}
    return {"fn": fn, "a": a, "vs": [v() for _ in range(min(n, 123))]}


def stepped(r, i):
    n = r.choice([1, 2, 2, 3])
    mode = r.random()
    faults = mode < 0.35
    ops = [{"o": "srv", "max": r.choice([1, 2]) if mode < 0.1 else 8, "units": [1, 2], "db": cells(r)}, S]
    if faults:
        ops.append({"o": "faults"})
    for c in range(1, n + 1):
        ops.append({"o": "cli", "c": c, "to": 1})
    if r.random() < 0.5:
        ops.append({"o": "lim", "srv": 1, "chunk": r.choice([1, 3, 7, -1]), "rchunk": r.choice([1, 2, 7, 8, -1])})
    if r.random() < 0.5:
        ops.append({"o": "lim", "c": 1, "chunk": r.choice([1, 5, 7, -1]), "rchunk": r.choice([1, 2, 7, 9, -1])})
    k = 0

    def sub(depth=0):
        nonlocal k
        k += 1
        o = {"o": "sub", "c": r.randrange(1, n + 1), "k": k, "u": r.choice([1, 2]), "rq": rq(r, k), "tmo": 1000}
        if depth < 2 and r.random() < 0.15:
            o["on"] = [sub(depth + 1)]
        return o

    for _ in range(r.choice([5, 12, 25])):
        x = r.random()
        if x < 0.5:
            ops.append(sub())
        elif x < 0.65:
            ops.append(S)
        elif x < 0.8:
            ops.append({"o": "io", "n": r.choice([1, 1, 2, 5])})
        elif x < 0.9:
            ops.append({"o": "run", "n": r.choice([1, 1, 2, 5])})
        elif x < 0.93:
            ops.append({"o": "snap", "p": r.sample(PROBES, 12)})
        elif x < 0.95:
            t = r.choice(["co", "di", "hr", "ir"])
            ops.append({"o": "add", "t": t, "a": r.choice([4, 8, 13, 21]), "v": r.randrange(2)})
        elif faults:
            ops.append(r.choice([{"o": "lim", "srv": 1, "err": r.choice([32, 104])}, {"o": "lim", "c": 1, "err": r.choice([32, 104])}, {"o": "adv", "d": r.choice([400, 1000])},
                                 {"o": "lim", "srv": 1, "budget": r.choice([0, 3, 11])}, {"o": "lim", "c": 1, "budget": r.choice([0, 5, 11, 12])},
                                 {"o": "sysfail", "socket": 1}, {"o": "accfail", "n": 1, "err": 24}]))
    for w in ("srv", "c"):
        ops.append({"o": "bud", w: 1, "n": -1})
    ops.append(S)
    if faults:
        ops += [{"o": "adv", "d": 1000}, S] * (k + 1)
    ops += [{"o": "snap", "p": PROBES}, {"o": "end"}]
    if faults:
        # works again
        ops += [dict(sub(3), rq={"fn": 6, "a": 5, "x": 4711}), S, {"o": "snap", "p": PROBES}, {"o": "end"}]
    return {"id": "s%d" % i, "ops": ops}


def threaded(r, i, cut):
    n = r.choice([1, 2, 3])
    k = 0

    def sub(depth=0):
        nonlocal k
        k += 1
        o = {"o": "sub", "k": k, "u": r.choice([1, 2]), "rq": rq(r, k)}
        if depth < 2 and r.random() < 0.15:
            o["on"] = [sub(depth + 1)]
        return o

    sc = {"id": "r%d" % i, "threads": r.choice([1, 2, 4]), "db": cells(r), "probes": PROBES, "clients": [], "polls": []}
    for _ in range(n):
        ths = []
        for _ in range(r.choice([1, 1, 2])):
            ths.append([r.choice([sub(), sub(), sub(), {"o": "wait", "us": r.choice([1, 20, 200])}, {"o": "snap", "p": r.sample(PROBES, 12)}]) for _ in range(r.choice([3, 8]))])
        sc["clients"].append({"ops": ths})
    if r.random() < (0.5 if cut else 0.1):
        sc["polls"] = [{"c": r.randrange(1, n + 1), "a": r.choice([5, 6, 4]), "ms": r.choice([1, 1, 5, 3600000])}]
    if cut:
        sc["cut"] = r.choice([1, 50, 200, 500, 1000, 3000])
    return sc


def from_model(hist, i, r):
    """A behaviour of the design of the whole: requests, and failures of the connections."""
    ops = [{"o": "srv", "max": 8, "units": [1], "db": [{"t": "hr", "a": 1, "v": 0}, {"t": "hr", "a": 2, "v": 0}]}, S, {"o": "cli", "c": 1, "to": 1}, {"o": "cli", "c": 2, "to": 1}, {"o": "faults"}]
    k = 0
    for o in hist:
        if o["o"] == "sub":
            k += 1
            ops.append(dict(o, u=1, tmo=1000))
        elif o["o"] == "cut":
            ops.append({"o": "lim", r.choice(["srv", "c"]): 1, "err": 104})
        elif o["o"] == "tmo":
            ops.append({"o": "adv", "d": 1000})
        else:
            ops.append(r.choice([{"o": "run", "n": r.choice([1, 2])}, {"o": "io", "n": 1}]))
    ops += [S] + [{"o": "adv", "d": 1000}, S] * (k + 1) + [{"o": "snap", "p": [["hr", 1], ["hr", 2]]}, {"o": "end"}]
    return {"id": "m%d" % i, "ops": ops}


MUTANTS = ["resend", "twice", "split", "misroute", "early", "cache", "anyanswer"]


def run(prop, tier, cov):
    q = tier == "quick"
    r = vt.rng("e2e", prop)
    exe = vt.build("h_e2e", ["h_e2e.cpp"], opt="-O1", extra=("-fsanitize=address",))
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0"}
    if prop == "M01":
        vt.decide(prop, cov, exe, [threaded(r, i, True) for i in range(300 if q else 6000)], "Trace_E2e", harness_env=env, repeat=30)
        return
    m = vt.model_check("MC_E2e", consts=None if q else {"MaxOps": "6"}, timeout=850)
    cov["states"] += m.distinct
    cov["transitions"] += m.generated
    for mut in MUTANTS[:2 if q else 9]:
        n = vt.tlc("MC_E2e", consts={"Mut": '"%s"' % mut}, args=("-deadlock",))
        if n.ok or "is violated" not in n.out:
            raise vt.CheckError("the deviation %s of the design is not rejected: the specification is vacuous\n%s" % (mut, n.out[-2000:]))
    d = vt.tlc("MC_E2e", consts={"Dump": "TRUE", "MaxOps": "4"}, workers=1, args=("-deadlock",))
    if not d.ok:
        raise vt.CheckError("dump failed\n" + d.out[-2000:])
    paths = [json.loads(x) for x in d.printed]
    limit = 500 if q else 12000
    if len(paths) > limit:
        paths = r.sample(paths, limit)
    step = vt.build("h_tcp", ["h_tcp.cpp"], opt="-O1", extra=("-fsanitize=address",))
    vt.decide(prop, cov, step, [from_model(p, i, r) for i, p in enumerate(paths)] + [stepped(r, i) for i in range(500 if q else 10000)], "Trace_E2e", harness_env=env, batch=200000)
    vt.decide(prop, cov, exe, [threaded(r, i, False) for i in range(150 if q else 4000)], "Trace_E2e", harness_env=env, batch=200000, repeat=30)
    cov["rule"] = ("behaviours of the bounded model of two clients, connections that fail, timeouts and the server; seeded random histories of one to three clients over fragmented loopback connections, "
                   "stepped and with the manager's own threads")
