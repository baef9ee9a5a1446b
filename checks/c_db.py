"""Database component: D01, D02, D03, D05 (sequential semantics)."""
import json
import vt

PROPS = ["D01", "D02", "D03", "D05"]
LIBSUB = lambda p: p.startswith("server/db/") or p == "messages/ExceptionType.cpp"


def model(prop, tier, cov):
    """Checks the design model and returns one scenario per transition of its state graph."""
    paths = []
    confs = [('{"co", "hr"}', "{0, 65534, 65535}"), ('{"di", "ir"}', "{0, 65534, 65535}"), ('{"sb"}', "{0, 65534, 65535}"), ('{"sr"}', "{7, 8, 9, 65535}"),
             ('{"hr", "hr2"}', "{0, 65535}"), ('{"co", "co2"}', "{0, 1}"), ('{"sb", "sb2"}', "{0, 65535}"), ('{"sr", "sr2"}', "{8, 9}")]
    if tier == "thorough":
        confs += [('{"co", "ir"}', "{0, 1, 65535}"), ('{"hr", "di"}', "{4, 5, 6}"), ('{"co"}', "{0, 1, 2, 65534, 65535}")]
    # the stand-alone tables are the subject of D05, and of it alone
    confs = [c for c in confs if ("s" in c[0]) == (prop == "D05")]
    for tabs, addrs in confs:
        ml = "3" if ("s" in tabs or tier == "thorough") else "2"
        r = vt.model_check("MC_Db", consts={"Tabs": tabs, "Addrs": addrs, "Dump": "TRUE", "MaxLen": ml}, workers=1)
        cov["states"] += r.distinct
        cov["transitions"] += r.generated
        # keep the paths that are not the beginning of another one
        ps = [json.loads(x) for x in r.printed]
        paths.append((tabs, addrs, ps))
    return paths


BITS = ("co", "di", "sb")


def probes(ops):
    """Cells to look at after every operation: everything addressed and its neighbours, in every table."""
    addrs = set()
    tabs = set()
    for o in ops:
        for x in (o.get("ops") or [o]):
            if "a" not in x:
                continue
            n = x.get("n") or len(x.get("vs", [])) or 1
            for b in (x["a"], x["a"] + n - 1):
                for d in (-1, 0, 1):
                    if 0 <= b + d <= 65535:
                        addrs.add(b + d)
    if len(addrs) > 24:
        addrs = set(sorted(addrs)[::max(1, len(addrs) // 24)])
    return addrs


def scenarios_from_model(groups, limit, r):
    out = []
    for tabs, addrs, ps in groups:
        if len(ps) > limit:
            ps = r.sample(ps, limit)
        single = "s" in tabs
        for k, p in enumerate(ps):
            a = sorted(probes(p))
            sc = {"id": "m%d" % len(out), "ops": p, "probes": [] if single else [[t, x] for t in json.loads("[" + tabs[1:-1] + "]") for x in a]}
            if single:
                sc["sprobes"] = [[t, x] for t in json.loads("[" + tabs[1:-1] + "]") for x in a]
                sc["every"] = "2" in tabs
            # full tables of the others at the end only
            out.append(sc)
    return out


def random_scenarios(n, nops, r, single_only=False):
    out = []
    for k in range(n):
        style = r.choice(["dense", "edge", "wide", "sparse"])
        base = {"dense": r.randrange(0, 65000), "edge": 65500, "wide": 0, "sparse": r.randrange(0, 60000)}[style]
        span = {"dense": 40, "edge": 36, "wide": 3000, "sparse": 200}[style]
        ops = []
        # every other history uses two databases
        two = ("", "", "2") if k % 2 else ("",)

        def addr():
            c = r.random()
            if c < 0.05:
                return r.choice([0, 1, 255, 256, 32767, 32768, 65534, 65535])
            return min(65535, base + r.randrange(span))

        def val(t):
            return r.randrange(2) if t[:2] in BITS else r.choice([0, 1, 255, 256, 32767, 32768, 65535, r.randrange(65536), r.randrange(65536)])

        fills = set()
        if style in ("wide", "dense", "edge"):
            for t in [x + y for y in sorted(set(two)) for x in (("sb", "sr") if single_only else ("co", "di", "hr", "ir"))]:
                if r.random() < 0.7:
                    n1 = min(span, r.choice([span, span // 2, 3]), 65536 - base)
                    if single_only:
                        for x in range(base, base + min(n1, 300)):
                            ops.append({"e": "sadd", "t": t, "a": x, "v": (x * 7 + 3) % (2 if t[:2] in BITS else 65536)})
                    else:
                        ops.append({"e": "fill", "t": t, "a": base, "n": n1, "k": r.choice([1, 3, 7, 257]), "c": r.randrange(100)})
        for _ in range(nops):
            if single_only:
                t = r.choice(["sb", "sr"]) + r.choice(two)
                a = addr()
                if len(two) > 1 and r.random() < 0.04:
                    ops.append({"e": "scopy", "t": t, "s": t[:2] if t[-1] == "2" else t + "2", "a": 0, "by": r.randrange(2)})
                    continue
                e = r.choice(["sadd", "sadd", "sset", "ssets", "sget", "sgets", "sval", "svalr"])
                o = {"e": e, "t": t, "a": a}
                if e in ("sadd", "sset"):
                    o["v"] = val(t)
                if e == "ssets":
                    o["vs"] = [val(t) for _ in range(r.choice([1, 2, 3, 8, 30, 123]))]
                if e in ("sgets", "svalr"):
                    o["n"] = r.choice([1, 2, 3, 8, 17, 125, 300])
                    if e == "svalr" and r.random() < 0.1:
                        o["n"] = r.choice([65535, 65536, 65537, 65536 + 2, 131072])
                ops.append(o)
                continue
            e = r.choice(["add", "add", "rd", "rd", "rd", "ws", "wm", "wm", "txn"])
            w = r.choice(two)
            t = (r.choice(["co", "di", "hr", "ir"]) if e in ("add", "rd") else r.choice(["co", "hr"])) + w
            a = addr()
            if e == "add":
                ops.append({"e": e, "t": t, "a": a, "v": val(t)})
            elif e == "rd":
                ops.append({"e": e, "t": t, "a": a, "n": r.choice([1, 1, 2, 3, 7, 8, 9, 16, 17, 125, 2000 if style == "wide" else 20])})
            elif e == "ws":
                ops.append({"e": e, "t": t, "a": a, "v": val(t)})
            elif e == "wm":
                ops.append({"e": e, "t": t, "a": a, "vs": [val(t) for _ in range(r.choice([1, 2, 3, 8, 9, 20, 123, 1000 if style == "wide" else 12]))]})
            else:
                tx = []
                for _ in range(r.randrange(1, 6)):
                    tt = r.choice(["co", "di", "hr", "ir"]) + w
                    tx.append({"o": r.choice(["get", "set", "set"]), "t": tt, "a": addr(), "v": val(tt)})
                if r.random() < 0.2:
                    tx.insert(r.randrange(len(tx) + 1), {"o": "throw", "t": "co" + w, "a": 0, "v": 0})
                ops.append({"e": "txn", "ops": tx})
        a = sorted(probes(ops))
        sc = {"id": "r%d" % k, "ops": ops, "probes": [] if single_only else [[t + y, x] for y in sorted(set(two)) for t in ("co", "di", "hr", "ir") for x in a]}
        if single_only:
            sc["sprobes"] = [[t + y, x] for y in sorted(set(two)) for t in ("sb", "sr") for x in a]
        out.append(sc)
    return out


def holes(single):
    """Long ranges around one missing address, and tables that are full."""
    out = []
    for t in (["sb", "sr"] if single else ["co", "di", "hr", "ir"]):
        bit = t in ("sb", "co", "di")
        top = 2000 if bit else 125
        wtop = 1968 if bit else 123
        rd, wm = ("sgets", "ssets") if single else ("rd", "wm")
        for base in (0, 300, 65536 - top):
            for h in sorted({0, 1, 7, 8, 63, 64, 100, top // 2, top - 2, top - 1, 127, 128, 255, 256, 1024}):
                if h >= top:
                    continue
                if single:
                    ops = [{"e": "sadd", "t": t, "a": base + x, "v": x % 2 if bit else (x * 257 + 5) % 65536} for x in range(top) if x != h] if h in (0, 1, 8, 64, top // 2, top - 1) else []
                    if not ops:
                        continue
                else:
                    ops = [{"e": "fill", "t": t, "a": base, "n": h, "k": 3, "c": 1}] if h else []
                    if h < top - 1:
                        ops.append({"e": "fill", "t": t, "a": base + h + 1, "n": top - h - 1, "k": 5, "c": 2})
                ask = [(base, h), (base, h + 1), (base, top), (base + h, 1), (base + h + 1, top - h - 1), (base + h, top - h), (base + 1, top - 1), (base + 1, h)]
                ask = [(a, n) for a, n in ask if n > 0 and a < 65536]
                ops += [{"e": rd, "t": t, "a": a, "n": n} for a, n in ask]
                if t in ("co", "hr", "sb", "sr"):
                    ops += [{"e": wm, "t": t, "a": a, "vs": [(i + 1) % 2 if bit else (i * 3 + 7) % 65536 for i in range(min(n, wtop))]} for a, n in ask]
                ops += [{"e": "sadd" if single else "add", "t": t, "a": base + h, "v": 1}] + [{"e": rd, "t": t, "a": a, "n": n} for a, n in ask[:4]]
                out.append(ops)
        if single:
            # a full table, and one that lacks its first, middle or last address
            for gap in (None, 0, 1, 32768, 65535):
                ops = [{"e": "sfill", "t": t, "a": 0, "n": 65536 if gap is None else gap, "k": 7, "c": 3}]
                if gap is not None:
                    ops.append({"e": "sfill", "t": t, "a": gap + 1, "n": 65535 - gap, "k": 7, "c": 3})
                ops = [o for o in ops if o["n"]]
                for a in (0, 1, 2, 32767, 32768, 65535 - top, 65536 - top, 65537 - top, 65534, 65535):
                    ops += [{"e": "svalr", "t": t, "a": a, "n": n} for n in (1, 2, 65535 - a, 65536 - a, 65537 - a, 65538 - a, 65535, 65536, 65537, 65536 + a, 131072) if n > 0]
                    ops += [{"e": "sval", "t": t, "a": a}, {"e": "sgets", "t": t, "a": a, "n": 2}, {"e": "sgets", "t": t, "a": a, "n": top}, {"e": "sgets", "t": t, "a": a, "n": 65537 - a if a > 60000 else 3}]
                    ops += [{"e": "ssets", "t": t, "a": a, "vs": [1] * 5}, {"e": "ssets", "t": t, "a": a, "vs": [0, 1]}, {"e": "sset", "t": t, "a": a, "v": 1}, {"e": "sadd", "t": t, "a": a, "v": 0}]
                    ops += [{"e": "sget", "t": t, "a": b} for b in (a, (a + 1) % 65536, 0, 65535)]
                out.append(ops)
        else:
            ops = [{"e": "fill", "t": t, "a": 0, "n": 65536, "k": 7, "c": 3}]
            for a in (0, 1, 255, 256, 32767, 32768, 65535 - top, 65536 - top, 65537 - top, 65534, 65535):
                ops += [{"e": "rd", "t": t, "a": a, "n": top}, {"e": "rd", "t": t, "a": a, "n": 1}, {"e": "rd", "t": t, "a": a, "n": 2}, {"e": "add", "t": t, "a": a, "v": 0}]
                if t in ("co", "hr"):
                    ops += [{"e": "wm", "t": t, "a": a, "vs": [1] * wtop}, {"e": "wm", "t": t, "a": a, "vs": [0, 1]}, {"e": "ws", "t": t, "a": a, "v": 1}]
            out.append(ops)
    res = []
    for i, ops in enumerate(out):
        a = sorted({x for o in ops[-20:] for x in (o["a"] - 1, o["a"], o["a"] + (o.get("n") or len(o.get("vs", [])) or 1)) if 0 <= x <= 65535})
        t = ops[0]["t"]
        sc = {"id": "h%d" % i, "ops": ops, "probes": [] if single else [[t, x] for x in a]}
        if single:
            sc["sprobes"] = [[t, x] for x in a]
        res.append(sc)
    return res


def endless(r, single, n):
    """One long history over few addresses."""
    ops = []
    for k in range(n):
        a = r.randrange(10, 18)
        if single:
            t = r.choice(["sb", "sr"])
            v = r.randrange(2 if t == "sb" else 65536)
            o = r.choice([{"e": "sadd", "v": v}, {"e": "sset", "v": v}, {"e": "sset", "v": v}, {"e": "ssets", "vs": [v, 1, v]}, {"e": "ssets", "vs": [v] * 6}, {"e": "sget"}, {"e": "sgets", "n": 3}, {"e": "sgets", "n": 5}, {"e": "svalr", "n": 4}, {"e": "sval"}])
            ops.append(dict(o, t=t, a=a))
            continue
        t = r.choice(["co", "di", "hr", "ir"])
        w = r.choice(["co", "hr"])
        v = r.randrange(65536)
        val = lambda x: v % 2 if x in BITS else v
        o = r.choice([{"e": "add", "t": t, "v": val(t)}, {"e": "rd", "t": t, "n": 3}, {"e": "rd", "t": t, "n": 1}, {"e": "rd", "t": w, "n": 6}, {"e": "ws", "t": w, "v": val(w)}, {"e": "ws", "t": w, "v": val(w)}, {"e": "wm", "t": w, "vs": [val(w), 1, val(w)]}, {"e": "wm", "t": w, "vs": [val(w)] * 6},
                      {"e": "txn", "ops": [{"o": "get", "t": w, "a": a, "v": 0}, {"o": "set", "t": t, "a": a, "v": val(t)}, {"o": "get", "t": t, "a": a + 1, "v": 0}]},
                      {"e": "txn", "ops": [{"o": "set", "t": t, "a": a, "v": val(t)}, {"o": "throw", "t": t, "a": 0, "v": 0}]}])
        ops.append(o if o["e"] == "txn" else dict(o, a=a))
    if single:
        # copies, looked at through the same few addresses
        out = []
        for i in range(60):
            p = [{"e": "sadd", "t": t, "a": 10 + x, "v": x % 2} for t in ("sb", "sr", "sb2", "sr2") for x in range(4)]
            for _ in range(40):
                t = r.choice(["sb", "sr", "sb2", "sr2"])
                o = r.choice([{"e": "sset", "v": r.randrange(2)}, {"e": "sset", "v": r.randrange(2)}, {"e": "ssets", "vs": [1, 0]}, {"e": "sgets", "n": 2}, {"e": "sadd", "v": 1}, {"e": "scopy", "s": t[:2] if t[-1] == "2" else t + "2", "by": r.randrange(2)}])
                p.append(dict(o, t=t, a=r.randrange(10, 15)))
            out.append({"id": "copies%d" % i, "ops": p, "probes": [], "sprobes": [[t, a] for t in ("sb", "sr", "sb2", "sr2") for a in range(10, 15)], "every": True})
    sc = {"id": "endless", "ops": ops, "probes": []}
    if single:
        sc["sprobes"] = [[t, a] for t in ("sb", "sr") for a in range(9, 26)]
        return [sc] + out
    return [sc]


def run(prop, tier, cov):
    r = vt.rng("db", prop)
    exe = vt.build("h_db", ["h_db.cpp"], only=LIBSUB)
    groups = model(prop, tier, cov)
    q = tier == "quick"
    scs = scenarios_from_model(groups, 2500 if q else 40000, r)
    if prop == "D05":
        scs += random_scenarios(60 if q else 600, 120, r, single_only=True)
    else:
        scs += random_scenarios(60 if q else 700, 60, r)
    scs += holes(prop == "D05")
    scs += endless(r, prop == "D05", 4000 if q else 40000)
    vt.decide(prop, cov, exe, scs, "Trace_Db")
    cov["rule"] = ("every transition of the bounded database model (shortest path to its source, then the operation) sampled to the tier's limit, "
                   "plus long ranges around one missing address, full tables, and seeded random histories with boundary addresses, quantities and values; full comparison of the probed contents after each operation")
