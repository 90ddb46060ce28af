"""Checks of the memory layer: drivers/mem.cc against TraceCache, TraceTable, TraceArena and TracePtr."""


def tlaset(fs):
    return "{" + ", ".join('"%s"' % f for f in fs) + "}"


def batches(scripts, k):
    """k batches of consecutive scripts"""
    n = max(1, (len(scripts) + k - 1) // k)
    return [scripts[i:i + n] for i in range(0, len(scripts), n)]


GEN = "SPECIFICATION Spec\nVIEW View\nCONSTRAINT Short\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n%sCONSTANTS\n%s"


def cst(**kw):
    return "".join("  %s = %s\n" % kv for kv in kw.items())


def thin(ctx, scripts, n, tag):
    """at most n of the scripts, evenly chosen"""
    if len(scripts) <= n:
        return scripts
    r = ctx.rng("thin", tag)
    return [scripts[i] for i in sorted(r.sample(range(len(scripts)), n))]


def conform_all(ctx, binary, scripts, module, focus, tag, per=4000, shuffle=True):
    """Deals the scripts to batches of about `per` commands."""
    total = sum(len(s) for s in scripts)
    nb = max(1, min(len(scripts), max(8 if total > 8000 else 1, total // per)))
    return [(ctx.conform, (binary, b, module, dict(FOCUS=tlaset(focus)), "%s-%d" % (tag, i))) for i, b in enumerate(batches(scripts, nb))]


# ---- cache ----------------------------------------------------------------------------------------
CACHE = ["size", "stats", "buckets", "result", "eval"]


def cache_random(ctx, n):
    out = []
    for i in range(n):
        r = ctx.rng("cache", i)
        big = i % 60 == 7                       # many operations, large capacity
        s = ["start", "cnew %d %d" % (r.choice([100, 200, 400]) if big else r.choice([0, 1, 2, 3, 4, 5, 8, 16, 50]), r.choice([0, 0, 1, 2, 3, 4, 4]))]
        nk = r.choice([300, 800]) if big else r.choice([3, 6, 12, 30])
        for k in range(nk):
            subs = [r.randrange(k) for _ in range(r.choice([0, 0, 1, 2, 3]))] if k and not (big and r.random() < 0.8) else []
            if len(subs) > 1 and r.random() < 0.5:
                subs = subs[:1]
            s.append("cdef %d %d %d %d %s" % (k, r.choice([0, 0, 0, 0, 1, 2]), 1 if r.random() < 0.1 else 0, len(subs), " ".join(map(str, subs))))
        s = [x.strip() for x in s]
        for _ in range(1200 if big else r.choice([20, 60, 150])):
            x = r.random()
            if x < (0.001 if big else 0.03):
                s.append("cclear")
            elif x < 0.05:
                s.append("clook %d 0" % (900 + r.randrange(4)))
            else:
                k = r.randrange(nk) if r.random() < 0.6 else r.randrange(max(1, nk // 3))
                s.append("clook %d %d" % (k, r.choice([0, 0, 0, -1, 1, 2])))
        s.append("cdel")
        out.append(s)
    return out


def c08(ctx):
    fut = ctx.pool.submit(ctx.build, "mem")
    models, gens = [], []
    for sh in (1, 2, 3):
        for cap in ctx.n((2, 3), (1, 2, 3, 4)):
            cfg = "SPECIFICATION Spec\nINVARIANTS Bounded Distinct Exact NoFiltered Counted BigStep\nPROPERTIES LruOrder\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Ops <- McOps\n Subs <- McSubs\n Filter <- McFilter\n" \
                  + cst(Shape=sh, Cap=cap, MaxLooks=ctx.n(4, 6), MaxThrows=1)
            models.append((ctx.model, ("MCCache", cfg, "Cache-%d-%d" % (sh, cap))))
    gen = "INIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
    gf = {(sh, cap): ctx.pool.submit(ctx.generate, "GenCache", gen + cst(Shape=sh, Cap=cap), "GenCache-%d-%d" % (sh, cap))
          for sh in (1, 2, 3) for cap in (1, 2, 3)}
    scripts = []
    binary = fut.result()
    for (sh, cap), f in gf.items():
        for size, hm in ctx.n([(cap, 0), (cap + 1, 1)], [(cap, 0), (cap + 1, 1), (cap + 2, 2), (4, 0), (5, 3)]):
            scripts += [["start", "cnew %d %d" % (size, hm)] + s + ["cdel"] for s in f.result()]
    scripts = thin(ctx, scripts, ctx.n(4000, 40000), "g")
    rnd = cache_random(ctx, ctx.n(300, 6000))
    ctx.log("%d + %d scripts" % (len(scripts), len(rnd)))
    ctx.assumptions += ["an operation evaluates to the same value each time and does not depend on itself",
                        "the capacity is read off the real cache (how many entries it accepts before evicting) and must lie between 1 and twice the requested size"]
    ctx.parallel(models + conform_all(ctx, binary, scripts, "TraceCache", CACHE, "gen") + conform_all(ctx, binary, rnd, "TraceCache", CACHE, "rnd"))


# ---- tables ---------------------------------------------------------------------------------------
TABLE = ["size", "stats", "rep", "dead", "recycled"]


def table_random(ctx, n):
    out = []
    for i in range(n):
        r = ctx.rng("table", i)
        kind, hm, nv = r.choice("gfu"), r.choice([0, 0, 1, 2, 3, 4, 4]), r.choice([4, 8, 20, 60])
        steps = r.choice([20, 60, 200])
        if i % 60 == 7:                         # many elements
            kind, nv, steps = "gfu"[i // 60 % 3], 900, 1400
        n0 = r.choice([0, 1, 1, 2, 3, 8, 40])
        nid = 0
        if kind in "gf":
            s = ["start", "hnew %d %d %d" % (n0, 1 if kind == "f" else 0, hm)]
            held, pend = {}, set()
            for _ in range(steps):
                x = r.random()
                if x < 0.02:
                    s.append("hclear")
                    held = {}
                elif x < 0.3 and held:
                    v = r.choice(sorted(held))
                    s.append("herase %d" % held.pop(v))
                elif kind == "g":
                    v = r.randrange(nv)
                    nid += 1
                    s.append("hins %d %d" % (nid, v))
                    held.setdefault(v, nid)
                elif x < 0.6 and pend:
                    v = r.choice(sorted(pend))
                    pend.discard(v)
                    nid += 1
                    held[v] = nid
                    s.append("hcommit %d %d" % (nid, v))
                else:
                    v = r.randrange(nv)
                    if v not in pend:
                        s.append("hcheck %d" % v)
                        if v not in held:
                            pend.add(v)
            s.append("hclear")
        else:
            s = ["start", "unew %d %d" % (n0, hm)]
            held, pend = {}, {}
            for _ in range(steps):
                x = r.random()
                if x < 0.25 and held:
                    v = r.choice(sorted(held))
                    s.append("uerase %d" % held.pop(v))
                elif x < 0.6 and pend:
                    i = r.choice(sorted(pend))
                    pend.pop(i)
                    v = r.randrange(nv)
                    s.append("uput %d %d" % (i, v))
                    held.setdefault(v, i)
                elif len(pend) < 4:
                    nid += 1
                    pend[nid] = 1
                    s.append("ualloc %d %d" % (nid, r.choice([0, 0, 1, 8, 40, 100])))
                if r.random() < 0.4:
                    s.append("ustat")
            s += ["ustat", "udel"]
        out.append(s)
    return out


def c09(ctx):
    fut = ctx.pool.submit(ctx.build, "mem")
    inv, uinv = "Content Sized Unique Placed Loaded", "OneRep NoLeak Roomy Counted"
    gf = []
    for hm in (0, 1, 2, 3):
        for fx in ("FALSE", "TRUE"):
            for n0 in ctx.n((1,), (1, 2, 4)):
                vals = "{1, 2, 3, 5}" if ctx.quick else "{0, 1, 2, 3, 5}"
                gf.append(ctx.pool.submit(ctx.generate, "Table", GEN % (inv, "PROPERTIES Answer\n", cst(Vals=vals, HashMode=hm, N0=n0, Fixed=fx, MaxLen=ctx.n(9, 12))),
                                          "Table-%d-%s-%d" % (hm, fx, n0)))
        gf.append(ctx.pool.submit(ctx.generate, "Unique", GEN % (uinv, "", cst(Vals="{1, 2, 3}", Extras="{0, 8, 24}", MaxPend=2, MaxLen=ctx.n(6, 8), HashMode=hm, N0=1)), "Unique-%d" % hm))
    binary = fut.result()
    scripts = []
    for i, f in enumerate(gf):
        scripts += thin(ctx, f.result(), ctx.n(700, 8000), i)
    rnd = table_random(ctx, ctx.n(500, 8000))
    ctx.log("%d + %d scripts" % (len(scripts), len(rnd)))
    ctx.assumptions += ["equal elements have equal hashes; only elements in the table are erased; a value checked absent is not inserted otherwise before it is committed"]
    ctx.parallel(conform_all(ctx, binary, scripts, "TraceTable", TABLE, "gen") + conform_all(ctx, binary, rnd, "TraceTable", TABLE, "rnd"))


# ---- arena ----------------------------------------------------------------------------------------
ARENA = ["intact", "heap", "scope", "disjoint", "fits", "room"]


def arena_random(ctx, n):
    out = []
    for i in range(n):
        r = ctx.rng("arena", i)
        size = r.choice([0, 1, 7, 8, 24, 48, 100, 256, 1000, 20000])
        s = ["start", "anew %d" % size]
        live, stack, nid = {}, [], 0          # id -> (depth, may be in the arena)
        for _ in range(r.choice([15, 50, 150])):
            x = r.random()
            if x < 0.45:
                nid += 1
                unit = r.choice([0, 1, 8, 24])
                n = r.choice([0, 1, 2, 3, 5, 8, 13] + [100, 300] * (size > 1000)) * max(1, unit)
                s.append("aalloc %d %d %d" % (nid, n, unit))
                live[nid] = len(stack)
            elif x < 0.75 and live:
                i = r.choice(sorted(live)) if r.random() < 0.5 else max(live)
                del live[i]
                s.append("afree %d" % i)
            elif x < 0.87 and len(stack) < 5:
                stack.append(0)
                s.append("abegin")
            elif stack:
                stack.pop()
                # the driver keeps those of them that came from the heap
                dead = [i for i, d in live.items() if d > len(stack)]
                s.append("aend %d %s" % (len(dead), " ".join(map(str, dead))))
                for i in dead:
                    del live[i]
        s.append("adel")
        out.append([x.strip() for x in s])
    return out


def c10(ctx):
    fut = ctx.pool.submit(ctx.build, "mem")
    inv = "Disjoint Intact InRange Above Nested"
    gf = []
    for n in ctx.n((0, 2, 4), (0, 1, 2, 3, 4, 5)):
        gf.append(ctx.pool.submit(ctx.generate, "Arena", GEN % (inv, "", cst(N=n, Sizes="{0, 1, 2, 3}", MaxLive=3, MaxDepth=2, MaxLen=ctx.n(6, 8))), "Arena-%d" % n))
    binary = fut.result()
    scripts = []
    for i, f in enumerate(gf):
        scripts += thin(ctx, f.result(), ctx.n(3500, 40000), i)
    rnd = arena_random(ctx, ctx.n(500, 8000))
    ctx.log("%d + %d scripts" % (len(scripts), len(rnd)))
    ctx.assumptions += ["a block is released with the size it was asked for and through the allocator it came from; blocks taken from the arena inside a scope are not used after it"]
    ctx.parallel(conform_all(ctx, binary, scripts, "TraceArena", ARENA, "gen") + conform_all(ctx, binary, rnd, "TraceArena", ARENA, "rnd"))


# ---- handles --------------------------------------------------------------------------------------
PTR = ["dead", "slots", "refs", "cmp"]


def ptr_random(ctx, n):
    out = []
    for i in range(n):
        r = ctx.rng("ptr", i)
        s = ["start", "pinit"]
        slot, kids, nid = {}, {}, 0
        ns = r.choice([3, 5, 10])
        for _ in range(r.choice([20, 60, 150])):
            x, full = r.random(), sorted(slot)
            d = r.randrange(ns)
            if x < 0.25 or not full:
                nid += 1
                ks = [r.choice(full) for _ in range(r.choice([0, 1, 1, 2, 3]))] if full else []
                kids[nid] = [slot[k] for k in ks]
                slot[d] = nid
                s.append("pnew %d %d %d %s" % (d, nid, len(ks), " ".join(map(str, ks))))
            elif x < 0.4:
                a = r.choice(full + [d]) if d in slot else r.choice(full)
                slot[d] = slot[a]
                s.append("pcopy %d %d" % (d, a))
            elif x < 0.52:
                a = r.choice(full)
                if a != d:
                    slot[d] = slot.pop(a)
                s.append("pmove %d %d" % (d, a))
            elif x < 0.6:
                a, b = r.choice(full), r.choice(full)
                slot[a], slot[b] = slot[b], slot[a]
                s.append("pswap %d %d %d" % (a, b, r.randrange(3)))
            elif x < 0.8:
                a = r.choice(full)
                if r.random() < 0.6:
                    d = a                    # the target is the only one to keep the kid alive
                ks = kids[slot[a]]
                if ks:
                    k = r.randrange(len(ks))
                    slot[d] = ks[k]
                    s.append("pkid %d %d %d %d" % (d, a, k, r.randrange(2)))
            elif x < 0.9:
                a = r.choice(full)
                del slot[a]
                s.append("pdel %d" % a)
            else:
                s.append("pcmp %d %d" % (r.choice(full), r.choice(full)))
        s.append("pend")
        out.append([x.strip() for x in s])
    return out


def ptr_jobs(ctx):
    """The part of C06 about the handles themselves."""
    binary = ctx.build("mem")
    scripts = ctx.generate("Ptr", GEN % ("Safe Closed Exact Counts", "PROPERTIES Fixed\n", cst(Slots="{1, 2, 3}", MaxObjs=3, MaxLen=ctx.n(5, 8))), "Ptr")
    scripts = thin(ctx, scripts, ctx.n(2500, 60000), "ptr")
    rnd = ptr_random(ctx, ctx.n(150, 4000))
    return conform_all(ctx, binary, scripts, "TracePtr", PTR, "ptr-gen") + conform_all(ctx, binary, rnd, "TracePtr", PTR, "ptr-rnd")
