"""The stream parser alone: F01."""
import json
import vt

PROPS = ["F01"]
PARSER = lambda p: p.startswith("messages/") or p.startswith("logging/") or "/" not in p and "Manager" not in p
ASSUMPTIONS = ["frames longer than the protocol allows are consumed whole and either never delivered or always delivered cut to 253 bytes of data"]


def W(n):
    return [(n >> 8) & 255, n & 255]


def cuts(stream, sizes):
    out, pos = [], 0
    for k in sizes:
        if pos >= len(stream):
            break
        out.append({"o": "rx", "b": stream[pos:pos + k]})
        pos += k
    if pos < len(stream):
        out.append({"o": "rx", "b": stream[pos:]})
    return out


def random_streams(n, r):
    out = []
    for i in range(n):
        ops = []
        for _ in range(r.choice([1, 2, 3])):
            b = []
            for _ in range(r.choice([1, 2, 3, 5, 8])):
                x = r.random()
                L = r.choice([1, 2, 2, 3, 5, 6, 7, 8, 100, 252, 253, 254]) if x < 0.75 else r.choice([0, 255, 256, 257, 260, 261, 262, 300, 511, 512, 65535 if r.random() < 0.1 else 1000])
                proto = 0 if r.random() < 0.85 else r.choice([1, 255, 256, 65535])
                b += W(r.choice([0, 1, 255, 256, 65535, r.randrange(65536)])) + W(proto) + W(L) + [r.randrange(256)] + [r.randrange(256) for _ in range(max(L - 1, 0))]
            if r.random() < 0.15:
                b = [r.choice([0, 0, 0, 1, 2, 255, r.randrange(256)]) for _ in range(r.choice([5, 30, 200]))]
            style = r.choice(["all", "ones", "small", "mixed", "two"])
            sizes = {"all": [], "ones": [1] * len(b), "small": [r.randrange(1, 9) for _ in range(len(b))],
                     "mixed": [r.choice([1, 6, 7, 8, 259, 260, 261, 300, 2]) for _ in range(len(b))], "two": [r.randrange(1, len(b) + 1)]}[style]
            if style == "ones" and len(b) > 3000:
                sizes = [700] * 100
            ops += cuts(b, sizes)
            if r.random() < 0.4:
                if r.random() < 0.5:
                    ops.append({"o": "rx", "b": b[:r.randrange(1, 12)]})
                ops.append({"o": "reset"})
        out.append({"id": "r%d" % i, "ops": ops})
    return out


def every_cut():
    """Two frames of each pair of kinds, cut once at every position, and every length up to 300 with both neighbours intact."""
    out = []
    kinds = [W(1) + W(0) + W(3) + [9, 1, 2], W(2) + W(0) + W(1) + [9], W(3) + W(0) + W(0) + [9], W(4) + W(7) + W(3) + [9, 5, 6], W(5) + W(0) + W(2) + [8, 3]]
    for x in kinds:
        for y in kinds:
            b = x + y + kinds[0]
            out += [cuts(b, [k]) for k in range(1, len(b))]
    for L in list(range(0, 300)) + [511, 512, 1024, 4095, 65534, 65535]:
        b = kinds[0] + W(600 + L % 100) + W(0) + W(L) + [7] + [(i * 11 + L) % 256 for i in range(max(L - 1, 0))] + kinds[4] + kinds[1]
        out += [cuts(b, []), cuts(b, [9, 7]), cuts(b, [14, 50, 150]), cuts(b, [len(b) - 20])]
    return [{"id": "c%d" % i, "ops": o} for i, o in enumerate(out)]


def run(prop, tier, cov):
    q = tier == "quick"
    r = vt.rng("frame", prop)
    exe = vt.build("h_frame", ["h_frame.cpp"], opt="-O1", extra=("-fsanitize=address", "-fno-omit-frame-pointer"), only=PARSER)
    m = vt.model_check("MC_Frame", consts=None if q else {"N": "3"})
    cov["states"] += m.distinct
    cov["transitions"] += m.generated
    for mut in ["whole", "zero", "lone", "proto"][:4]:
        n = vt.tlc("MC_Frame", consts={"Mut": '"%s"' % mut}, args=("-deadlock",), workers=2)
        if n.ok or "is violated" not in n.out:
            raise vt.CheckError("the deviation %s of the design is not rejected: the specification is vacuous\n%s" % (mut, n.out[-2000:]))
    d = vt.tlc("MC_Frame", consts={"Dump": "TRUE"}, workers=1, args=("-deadlock",))
    if not d.ok:
        raise vt.CheckError("dump failed\n" + d.out[-2000:])
    paths = [json.loads(x) for x in d.printed]
    limit = 1500 if q else 20000
    if len(paths) > limit:
        paths = r.sample(paths, limit)
    scs = [{"id": "m%d" % i, "ops": cuts(p["s"], p["h"])} for i, p in enumerate(paths)] + every_cut() + random_streams(600 if q else 6000, r)
    vt.decide(prop, cov, exe, scs, "Trace_Frame", harness_env={"ASAN_OPTIONS": "detect_leaks=0"})
    cov["rule"] = ("every stream of up to two frames from nine kinds cut in every way into pieces of six sizes (model), every single cut of streams of three frames, "
                   "every length field 0..299 between intact frames, seeded random streams")
