"""Check of initialisation and shutdown: drivers/manager.cc against TraceManager."""
from memchecks import GEN, cst, thin, conform_all

FOCUS = ["init", "managers", "diagrams", "same", "frame", "released", "unchanged", "empty", "reset"]
NK = 6


def conflict(j, k):
    return j == k or {j, k} == {0, 1}


def random_scripts(ctx, n):
    out = []
    for i in range(n):
        r = ctx.rng("mgr", i)
        ks = r.sample(range(NK), r.choice([1, 2, 3, 4, 6]))
        if r.random() < 0.4:
            ks = sorted(set(ks) | {0, 1})
        own, held, s = {k: set() for k in range(NK)}, {k: set() for k in range(NK)}, ["start"]
        for _ in range(r.choice([10, 30, 80])):
            k, x = r.choice(ks), r.random()
            if not own[k]:
                if x < 0.8:
                    d = r.randrange(3)
                    s.append("init %d %d %d" % (k, d, r.choice([0, 0, 1, 1, 2])))
                    if not any(own[j] for j in range(NK) if conflict(j, k)):
                        own[k].add(d)
                continue
            a, d = r.choice(sorted(own[k])), r.randrange(3)
            if x < 0.07:
                if d not in own[k]:
                    s.append("init %d %d %d" % (k, d, r.choice([0, 1, 2])))
            elif x < 0.15:
                s.append("copy %d %d %d" % (k, d, a))
                own[k].add(d)
            elif x < 0.2:
                s.append("move %d %d %d" % (k, d, a))
                own[k].discard(a)
                own[k].add(d)
            elif x < 0.25:
                if d in own[k]:
                    s.append("assign %d %d %d" % (k, d, a))
            elif x < 0.3:
                if d in own[k] and d != a:
                    s.append("massign %d %d %d" % (k, d, a))
                    own[k].discard(a)
            elif x < 0.4:
                if len(own[k]) == 1:
                    s += ["forget %d %d" % (k, h) for h in sorted(held[k])]
                    held[k].clear()
                s.append("drop %d %d" % (k, a))
                own[k].discard(a)
            elif x < 0.55 or not held[k]:
                h = r.randrange(4)
                s.append("mk %d %d %d %d" % (k, h, r.randrange(4), r.randrange(4)))
                held[k].add(h)
            elif x < 0.75:
                s.append("op %d %d %d %d" % (k, r.choice(sorted(held[k])), r.choice(sorted(held[k])), r.randrange(3)))
            elif x < 0.9:
                s.append("close %d %d %d" % (k, r.choice(sorted(held[k])), r.randrange(2)))
            elif x < 0.95:
                h = r.choice(sorted(held[k]))
                s.append("forget %d %d" % (k, h))
                held[k].discard(h)
            else:
                s.append("reset %d %d" % (k, a))
        for k in range(NK):
            s += ["forget %d %d" % (k, h) for h in sorted(held[k])] + ["drop %d %d" % (k, d) for d in sorted(own[k])]
        out.append(s)
    return out


def fault_scripts(ctx):
    """Memory runs out at the f-th allocation of init(): nothing must be left behind."""
    out = []
    for k in range(NK):
        for v in ctx.n((0,), (0, 2)):
            for f in range(40):
                out.append(["start", "init %d 0 %d %d" % (k, v, f), "init %d 1 %d" % (k, (v + f) % 3), "drop %d 0" % k, "drop %d 1" % k,
                            "init %d 0 %d" % (k, v), "mk %d 1 2 1" % k, "close %d 1 1" % k, "forget %d 1" % k, "drop %d 0" % k])
    for k, j in ((0, 1), (1, 0), (0, 2), (3, 4), (2, 5)):      # while another configuration is in use
        for f in range(0, 40, ctx.n(3, 1)):
            out.append(["start", "init %d 0 0" % j, "mk %d 1 1 1" % j, "init %d 0 0 %d" % (k, f), "close %d 1 0" % j,
                        "drop %d 0" % k, "forget %d 1" % j, "drop %d 0" % j, "init %d 1 0" % k, "mk %d 0 1 1" % k, "forget %d 0" % k, "drop %d 1" % k])
    return out


def c21(ctx):
    fut = ctx.pool.submit(ctx.build, "manager")
    gens = []
    for i, (ks, slots, held, variants, ml) in enumerate([
            ("{1, 2}", "{0, 1}", "{1}", "{0}", (5, 8)), ("{4, 5}", "{0, 1}", "{1}", "{1}", (4, 7)), ("{1, 3}", "{0, 1}", "{1}", "{1}", (4, 7)),
            ("{3}", "{0, 1}", "{1, 2}", "{0, 2}", (5, 8)), ("{1, 2, 6}", "{0}", "{1}", "{0}", (6, 9))]):
        cfg = GEN % ("Exclusive InUse", "PROPERTIES Monotone\n", cst(Ks=ks, Slots=slots, Held=held, Variants=variants, MaxLen=ctx.n(*ml)))
        gens.append(ctx.pool.submit(ctx.generate, "Manager", cfg, "Manager-%d" % i))
    gs = [s for i, g in enumerate(gens) for s in thin(ctx, g.result(), ctx.n(2000, 20000), i)]
    rnd, flt = random_scripts(ctx, ctx.n(250, 6000)), fault_scripts(ctx)
    # the default sizes, once
    big = [["start", "init 0 0 3", "mk 0 1 2 1", "close 0 1 1", "init 0 1 0", "init 3 0 3", "mk 3 1 2 1", "close 3 1 0", "forget 0 1", "drop 0 0", "forget 3 1", "drop 3 0",
            "init 1 0 0", "mk 1 1 1 1", "forget 1 1", "drop 1 0"]]
    b = fut.result()
    ctx.log("%d generated, %d random, %d fault scripts" % (len(gs), len(rnd), len(flt)))
    ctx.parallel(conform_all(ctx, b, gs, "TraceManager", FOCUS, "gen", per=3000) + conform_all(ctx, b, rnd, "TraceManager", FOCUS, "rnd", per=2000)
                 + conform_all(ctx, b, flt, "TraceManager", FOCUS, "flt", per=2000) + conform_all(ctx, b, big, "TraceManager", FOCUS, "big"))
