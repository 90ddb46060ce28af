"""Check of the value sets: drivers/values.cc against TraceValues."""
import itertools
from memchecks import GEN, cst, thin, conform_all

VALUES = ["set", "size", "x", "insert", "erase", "eq", "lt", "iter", "find", "text", "unified"]
BITS = {"b8": 8, "b64": 64, "b65": 65, "b130": 130}
FLAT = ["fu", "fi", "fh", "fs"]


def interesting(t):
    if t in BITS:
        n = BITS[t]
        return sorted({0, 1, 2, 3, n - 2, n - 1} | {x for x in (31, 32, 62, 63, 64, 65, 127, 128) if x < n})
    return list(range(16))


def exhaustive(ctx, t, k):
    """all subsets of k values, all pairs of them under each operation"""
    r = ctx.rng("ex", t)
    vals = sorted(r.sample(interesting(t), k))
    out = ["start %s %d" % (t, r.choice([0, 1, 100]))]
    subs = [list(x) for n in range(k + 1) for x in itertools.combinations(vals, n)]
    for i, x in enumerate(subs):
        y = x + [r.choice(x)] if x and r.random() < 0.3 else list(x)
        r.shuffle(y)
        out.append("vnew %d %d %d %s" % (i, r.choice([0, 1, 2]), len(y), " ".join(map(str, y))))
    out.append("vcmp")
    n = len(subs)
    for i in range(n):
        out.append("vobs %d" % i)
    pairs = [(a, b) for a in range(n) for b in range(n)]
    r.shuffle(pairs)
    res = []
    # the other slots stay as they are: results go to one slot, with few others alive so that events stay short
    for chunk in [pairs[i:i + 40] for i in range(0, len(pairs), 40)]:
        s = out[:1]
        for a, b in chunk:
            for d, x in ((0, a), (1, b)):
                s.append("vnew %d %d %d %s" % (d, r.choice([0, 1, 2]), len(subs[x]), " ".join(map(str, subs[x]))))
            s += ["vsum 2 0 1", "vint 3 0 1", "vdif 4 0 1", "vdif 5 1 0", "vcmp"]
            if t in FLAT:
                s.append("vstat")
        res.append([x.strip() for x in s] + ["stop"])
    return [[x.strip() for x in out] + ["stop"]] + res


def rand(ctx, n):
    out = []
    for i in range(n):
        r = ctx.rng("values", i)
        t = r.choice(list(BITS) + FLAT)
        vals = interesting(t)
        if r.random() < 0.5:
            vals = r.sample(vals, r.choice([2, 4, 6]))
        s = ["start %s %d" % (t, r.choice([0, 1, 2, 8, 100]))]
        live, ns = [], r.choice([2, 3, 5])
        for _ in range(r.choice([15, 40, 100])):
            x, d = r.random(), r.randrange(ns)
            if not live or x < 0.2:
                l = [r.choice(vals) for _ in range(r.choice([0, 1, 2, 3, 4, 8]))]
                s.append("vnew %d %d %d %s" % (d, r.randrange(3), len(l), " ".join(map(str, l))))
            elif x < 0.35:
                d = r.choice(live)
                s.append("vins %d %d" % (d, r.choice(vals)))
            elif x < 0.47 and t in FLAT:
                d = r.choice(live)
                s.append("vera %d %d" % (d, r.choice(vals)))
            elif x < 0.47:
                s.append("%s %d %d %d" % (r.choice(["vshl", "vshr"]), d, r.choice(live), r.choice([0, 1, 2, 31, 63, 64, 65])))
            elif x < 0.55:
                s.append("vcopy %d %d" % (d, r.choice(live)))
            elif x < 0.6 and len(live) > 1:
                d = r.choice(live)
                s.append("vdel %d" % d)
                live.remove(d)
                continue
            elif x < 0.65:
                d = r.choice(live)
                s.append("vswap %d %d" % (d, r.choice(live)))
            elif x < 0.85:
                s.append("%s %d %d %d" % (r.choice(["vsum", "vint", "vdif"]), d, r.choice(live), r.choice(live)))
            elif x < 0.93:
                s.append("vobs %d" % r.choice(live))
                continue
            else:
                s.append("vcmp")
                if t in FLAT:
                    s.append("vstat")
                continue
            if d not in live:
                live.append(d)
        s += ["vobs %d" % x for x in live] + ["stop"]
        out.append([x.strip() for x in s])
    return out


def wide(ctx, n):
    """sets of many elements"""
    out = []
    for i in range(n):
        r = ctx.rng("wide", i)
        t = r.choice(["fl", "fl", "b64", "b65", "b130"])
        m = 300 if t == "fl" else BITS[t]
        s = ["start %s %d" % (t, r.choice([0, 1, 8, 100]))]

        def some():
            k = r.random()
            if k < 0.3:
                return r.sample(range(m), r.randint(0, m))
            if k < 0.6:
                a = r.randrange(m)
                return list(range(a, min(m, a + r.choice([3, 30, 64, 100]))))
            if k < 0.7:
                return list(range(m))
            return [x for x in range(m) if x % r.choice([2, 3, 7]) == 0]
        for d in range(4):
            l = some()
            r.shuffle(l)
            s.append("vnew %d %d %d %s" % (d, r.choice([1, 2]), len(l), " ".join(map(str, l))))
        for _ in range(r.choice([8, 16])):
            x, d = r.random(), r.randrange(4)
            if x < 0.5:
                s.append("%s %d %d %d" % (r.choice(["vsum", "vint", "vdif"]), d, r.randrange(4), r.randrange(4)))
            elif x < 0.6:
                s.append("vins %d %d" % (d, r.randrange(m)))
            elif x < 0.75:
                s.append("vera %d %d" % (d, r.randrange(m)) if t == "fl" else "%s %d %d %d" % (r.choice(["vshl", "vshr"]), d, r.randrange(4), r.choice([1, 7, 31, 32, 63, 64, 65])))
            elif x < 0.85:
                s.append("vcopy %d %d" % (d, r.randrange(4)))
            else:
                s.append("vcmp")
        s += ["vobs %d" % d for d in range(4)] + ["vcmp", "stop"]
        out.append([x.strip() for x in s])
    return out


def related(ctx, sizes):
    """pairs of sets of given sizes that touch, overlap, nest, interleave or differ in one element, and changes
    of one element at both ends and in the middle"""
    out = []
    for t in list(BITS) + ["fl", "fi", "fh", "fs"]:
        lim = BITS.get(t, 300 if t == "fl" else 16)
        for n in sizes:
            for m in sizes:
                r = ctx.rng("related", t, n, m)
                if n + m + 2 > lim:
                    continue
                lo = r.choice([0, r.randrange(lim - n - m - 1)])
                A = list(range(lo, lo + n))
                B = [("touching", range(lo + n - 1, lo + n - 1 + m)), ("adjacent", range(lo + n, lo + n + m)),
                     ("apart", range(lo + n + 1, lo + n + 1 + m)), ("overlap", range(lo + n // 2, lo + n // 2 + m)),
                     ("start", A[:m]), ("end", A[-m:]), ("middle", A[(n - m) // 2:(n - m) // 2 + m] if m <= n else A),
                     ("first", A[1:] + [lo + n + m]), ("last", A[:-1] + [lo + n + m]), ("hole", A[:n // 2] + A[n // 2 + 1:])]
                L = list(range(lo, lo + n + m))
                pairs = [(A, list(b)) for _, b in B] + [(L[::2], L[1::2]), (L[::2], L[::2][1:] + [L[1]])]
                s = ["start %s %d" % (t, r.choice([0, 1, 100]))]
                for a, b in pairs:
                    if r.random() < 0.5:
                        a, b = b, a
                    for d, x in ((0, a), (1, b)):
                        x = list(x)
                        r.shuffle(x)
                        s.append("vnew %d %d %d %s" % (d, r.choice([1, 2]), len(x), " ".join(map(str, x))))
                    ops = ["vsum 2 0 1", "vint 3 0 1", "vdif 4 0 1", "vdif 5 1 0", "vint 2 1 0"]
                    r.shuffle(ops)
                    s += ops + ["vcmp"]
                for x in {A[0], A[-1], A[n // 2], lo + n, max(0, lo - 1)}:
                    s += ["vnew 0 1 %d %s" % (n, " ".join(map(str, A))), "vins 0 %d" % x, "vobs 0"]
                    if t not in BITS:
                        s += ["vera 0 %d" % x, "vobs 0"]
                out.append([x.strip() for x in s] + ["stop"])
    return out


def c11(ctx):
    fut = ctx.pool.submit(ctx.build, "values")
    gf = {}
    for ty, lo in (("flat", 0), ("flat", 12), ("bits", 0), ("bits", 5)) if ctx.quick else (("flat", 0), ("flat", 7), ("flat", 12), ("bits", 0), ("bits", 5)):
        cfg = GEN % ("AsSets Unified Distinct Collected", "", cst(Univ=ctx.n("{1, 2}", "{1, 2, 3}"), Slots=ctx.n("{1, 2, 3}", "{1, 2}"), MaxLen=ctx.n(4, 5), Type='"%s"' % ty, Lo=lo))
        gf[(ty, lo)] = ctx.pool.submit(ctx.generate, "Values", cfg, "Values-%s-%d" % (ty, lo))
    binary = fut.result()
    scripts = []
    for (ty, lo), f in gf.items():
        g = thin(ctx, f.result(), ctx.n(800, 20000), ty + str(lo))
        names = FLAT if ty == "flat" else ["b8"]
        scripts += [["start %s %d" % (names[i % len(names)], i % 3)] + s for i, s in enumerate(g)]
    ex = [s for t in list(BITS) + FLAT for s in exhaustive(ctx, t, ctx.n(3, 5))]
    rnd = rand(ctx, ctx.n(600, 12000)) + wide(ctx, ctx.n(40, 1500)) + related(ctx, ctx.n((1, 2, 5, 9, 20), (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20, 33, 40, 63, 70)))
    ctx.log("%d + %d + %d scripts" % (len(scripts), len(ex), len(rnd)))
    ctx.parallel(conform_all(ctx, binary, scripts, "TraceValues", VALUES, "gen") + conform_all(ctx, binary, ex, "TraceValues", VALUES, "ex")
                 + conform_all(ctx, binary, rnd, "TraceValues", VALUES, "rnd"))
