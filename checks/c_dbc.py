"""Database component: D04 (linearizability of requests, adds and transactions)."""
import vt

PROPS = ["D04"]
LIBSUB = lambda p: p.startswith("server/db/") or p == "messages/ExceptionType.cpp"
ASSUMPTIONS = ["schedule points are the pthread lock operations, the boundaries between the steps of a transaction and, in the fine-grained phase, the entries and exits of the functions of the database; memory is sequentially consistent"]

T = ("co", "di", "hr", "ir")


def cells(t, a, n=1):
    return [{"e": "add", "t": t, "a": a + k, "v": 0} for k in range(n)]


def g(t, a):
    return {"o": "get", "t": t, "a": a, "v": 0}


def s(t, a, v):
    return {"o": "set", "t": t, "a": a, "v": v}


def txn(*ops):
    return {"e": "txn", "ops": list(ops)}


def systematic():
    """Each kind of operation against transactions that would expose it in their middle, and against each other."""
    out = []

    def prog(init, *threads, probes=None):
        addrs = sorted({(o["t"], o["a"]) for o in init} | {(t, a) for t in T for a in (5, 6, 9)})
        out.append({"init": init, "threads": [list(x) for x in threads], "probes": [list(p) for p in addrs]})

    for t in T:
        init = cells(t, 5, 3)
        # readers must not see the middle of a transaction
        prog(init, [txn(s(t, 5, 1), s(t, 6, 1), s(t, 7, 1))], [{"e": "rd", "t": t, "a": 5, "n": 3}])
        prog(init, [txn(s(t, 5, 1), s(t, 5, 0))], [{"e": "rd", "t": t, "a": 5, "n": 1}])
        # adds must not land in the middle of a transaction
        prog(init, [txn(g(t, 9), g(t, 9), g(t, 5))], [{"e": "add", "t": t, "a": 9, "v": 1}])
        prog(init, [{"e": "add", "t": t, "a": 9, "v": 1}], [{"e": "add", "t": t, "a": 9, "v": 0}], [{"e": "rd", "t": t, "a": 9, "n": 1}])
        # two transactions: read-modify-write must not be lost
        prog(init, [txn(g(t, 5), g(t, 6), s(t, 5, 1))], [txn(g(t, 6), g(t, 5), s(t, 6, 1))])
        prog(init, [txn(g(t, 5), s(t, 5, 1), g(t, 5))], [txn(g(t, 5), s(t, 5, 0), g(t, 5))])
        # a transaction that throws, whatever it throws, must let the next operations in
        for kind in (0, 1, 2, 3):
            prog(init, [txn(s(t, 5, 1), {"o": "throw", "t": t, "a": 0, "v": kind}), {"e": "rd", "t": t, "a": 5, "n": 2}], [{"e": "add", "t": t, "a": 9, "v": 1}])
        for u in T:
            if u != t:
                prog(init + cells(u, 5, 2), [txn(s(t, 5, 1), s(u, 5, 1))], [txn(g(u, 5), g(t, 5))])
                prog(init + cells(u, 5, 2), [txn(s(t, 5, 1), s(u, 5, 1))], [{"e": "rd", "t": u, "a": 5, "n": 1}, {"e": "rd", "t": t, "a": 5, "n": 1}])
    for t in ("co", "hr"):
        init = cells(t, 5, 3)
        for w in ({"e": "ws", "t": t, "a": 5, "v": 1}, {"e": "wm", "t": t, "a": 5, "vs": [1, 1, 1]}):
            prog(init, [txn(g(t, 5), g(t, 5), g(t, 6), g(t, 7))], [w])
            prog(init, [txn(s(t, 5, 0), g(t, 5), g(t, 6))], [w])
            prog(init, [w], [{"e": "rd", "t": t, "a": 5, "n": 3}])
            prog(init, [w], [{"e": "rd", "t": t, "a": 5, "n": 3}], [txn(g(t, 5), s(t, 5, 0), s(t, 6, 0))])
        prog(init, [{"e": "wm", "t": t, "a": 5, "vs": [1, 0, 1]}], [{"e": "wm", "t": t, "a": 5, "vs": [0, 1, 0]}], [{"e": "rd", "t": t, "a": 5, "n": 3}])
        prog(init, [{"e": "wm", "t": t, "a": 6, "vs": [1, 1, 1, 1]}], [{"e": "add", "t": t, "a": 9, "v": 0}, {"e": "rd", "t": t, "a": 6, "n": 4}])
        prog(init, [{"e": "wm", "t": t, "a": 7, "vs": [1, 1]}], [{"e": "add", "t": t, "a": 8, "v": 0}], [{"e": "rd", "t": t, "a": 7, "n": 2}])
    # operations on addresses that appear in the meantime
    for t in T:
        add = {"e": "add", "t": t, "a": 5, "v": 0}
        rd = {"e": "rd", "t": t, "a": 5, "n": 3}
        prog(cells(t, 6, 2), [rd], [add, txn(s(t, 5, 1), s(t, 6, 1), s(t, 7, 1))])
        prog(cells(t, 6, 2), [txn(g(t, 5), g(t, 5), s(t, 5, 1), g(t, 5))], [add])
        prog(cells(t, 5, 2), [rd], [{"e": "add", "t": t, "a": 7, "v": 0}, txn(s(t, 5, 1), s(t, 6, 1), s(t, 7, 1))])
        if t in ("co", "hr"):
            w = {"e": "wm", "t": t, "a": 5, "vs": [1, 1, 1]}
            prog(cells(t, 6, 2), [w], [add, txn(g(t, 5), g(t, 6), g(t, 7))])
            prog(cells(t, 6, 2), [{"e": "ws", "t": t, "a": 5, "v": 1}], [add, txn(g(t, 5), g(t, 5))])
            prog(cells(t, 6, 2), [rd], [add, w])
    # long ranges
    for t, n in (("hr", 40), ("hr", 123), ("co", 100), ("co", 700), ("ir", 125), ("di", 600)):
        long = {"e": "rd", "t": t, "a": 5, "n": n}
        init = cells(t, 5, n)
        some = [5, 6, 5 + n // 2, 4 + n]
        if t in ("hr", "co"):
            w = [{"e": "wm", "t": t, "a": 5, "vs": [v] * n} for v in (1, 0)]
            prog(init, w[:1], [long])
            prog(init, w[:1], w[1:], [long])
            prog(init, w[:1], [txn(*[g(t, a) for a in some])])
            prog(init, w[:1], [{"e": "ws", "t": t, "a": 5, "v": 7 if t == "hr" else 1}, {"e": "ws", "t": t, "a": 4 + n, "v": 9 if t == "hr" else 1}], [long])
        prog(init, [txn(*[s(t, a, 1) for a in some])], [long])
        for p in out[-5:]:
            p["long"] = 1
    return out


def random_programs(n, r, three):
    out = []
    for _ in range(n):
        tabs = r.sample(T, r.choice([1, 2]))
        init = []
        for t in tabs:
            init += cells(t, 5, r.choice([2, 3]))

        def op():
            t = r.choice(tabs)
            a = r.choice([5, 5, 6, 7])
            bit = t in ("co", "di")
            v = r.choice([0, 1]) if bit else r.choice([0, 1, 2, 65535])
            k = r.choice(["rd", "ws", "wm", "add", "txn", "txn"])
            if k == "ws" and t in ("co", "hr"):
                return {"e": "ws", "t": t, "a": a, "v": v}
            if k == "wm" and t in ("co", "hr"):
                return {"e": "wm", "t": t, "a": a, "vs": [r.choice([0, 1]) for _ in range(r.choice([2, 3]))]}
            if k == "add":
                return {"e": "add", "t": t, "a": r.choice([7, 8, 9]), "v": v}
            if k == "txn":
                ops = []
                for _ in range(r.choice([2, 3])):
                    tt = r.choice(tabs)
                    ops.append(r.choice([g(tt, r.choice([5, 6, 8])), s(tt, r.choice([5, 6, 8]), r.choice([0, 1]))]))
                if r.random() < 0.1:
                    ops.append({"o": "throw", "t": t, "a": 0, "v": r.choice([0, 1, 2, 3])})
                return txn(*ops)
            return {"e": "rd", "t": t, "a": a, "n": r.choice([1, 2, 3])}

        nt = 3 if three and r.random() < 0.5 else 2
        out.append({"init": init, "threads": [[op() for _ in range(r.choice([1, 1, 2]))] for _ in range(nt)],
                    "probes": [[t, a] for t in tabs for a in (5, 6, 7, 8, 9)]})
    return out


def run(prop, tier, cov):
    q = tier == "quick"
    r = vt.rng("dbc")
    exe = vt.build("h_dbc", ["h_dbc.cpp", "interpose_locks.cpp"], only=LIBSUB, libextra=("-finstrument-functions",))
    m = vt.model_check("MC_DbLin", consts={"Programs": "2" if q else "3"})
    cov["states"] += m.distinct
    cov["transitions"] += m.generated
    neg = vt.tlc("MC_DbLin", consts={"UseLock": "FALSE"}, args=("-deadlock",))
    if "Invariant D04 is violated" not in neg.out:
        raise vt.CheckError("the model without the mutex is not rejected: the monitor is vacuous\n" + neg.out[-2000:])
    scs = systematic() + random_programs(60 if q else 900, r, True)
    for k, sc in enumerate(scs):
        sc["id"] = "c%d" % k
        sc["limit"] = (400 if q else 6000) if "long" not in sc else (40 if q else 200)
        sc["fine"] = (120 if q else 4000) if "long" not in sc else (40 if q else 300)
        sc["seed"] = vt.SEED * 1000 + k
    vt.decide(prop, cov, exe, scs, "Trace_DbLin")
    cov["histories"] = cov["event_counts"].get("reset", 0) + cov["traces_validated_against_impl"]
    cov["rule"] = ("programs of 2-3 threads; every schedule at lock and transaction-step granularity in depth-first order up to the limit, then random ones, then random ones with preemptions at function entries and exits inside the database; "
                   "each distinct history is checked for linearizability against the sequential specification")
