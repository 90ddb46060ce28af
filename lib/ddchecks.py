"""Checks decided with spec/TraceDD.tla over logs of drivers/dd.cc."""
import itertools, os, sys
from ddgen import DD, Shape, sizes
import homgen
import memchecks, vf

ALL = ["set", "top", "canon", "eq", "handle", "count", "paths", "tools", "reclaim", "leak", "init", "hom", "hnew", "heq", "hsem", "hsel", "throw"]


def tlaset(fs):
    return "{" + ", ".join('"%s"' % f for f in fs) + "}"


def consts(focus, den=True, count=False):
    return dict(FOCUS=tlaset(focus), DEN="TRUE" if den else "FALSE", COUNT="TRUE" if count else "FALSE")


def shape(r, depth=3, width=3, hier=0.45, maxleaves=6, minleaves=1):
    while True:
        s = Shape.random(r, depth, width, hier)
        if minleaves <= s.leaves() <= maxleaves:
            return s


def sized(r, n, depth, hier=0.5):
    """a shape of exactly n leaves and at most depth levels of hierarchy"""
    parts = []
    while n:
        k = 1 if depth <= 1 or r.random() > hier else r.randint(1, n)
        parts.append(None if k == 1 and (depth <= 1 or r.random() > hier) else sized(r, k, depth - 1, hier))
        n -= k
    r.shuffle(parts)
    return Shape(parts)


ALGEBRA = dict(build=2, main=6, bin=10, inplace=4, nary=7, term=0.5, copy=0.7, move=0.5, swap=0.5, sub=0.7, clear=0.7)
ALGEBRA["del"] = 1.5


def alg_scripts(ctx, n, tag, weights=None, steps=60, tiny=0.5, extra=None, shapes=None):
    out = []
    for i in range(n):
        r = ctx.rng(tag, i)
        k = r.random()
        if shapes:
            sh, mv = shapes(r)
        elif k < 0.35:                       # wide: few variables, many values
            sh, mv = [shape(r, 2, 2, 0.4, 3)], r.choice([6, 8])
        elif k < 0.8:
            sh, mv = [shape(r, 3, 3, 0.45, 5, 2) for _ in range(r.choice([1, 1, 2]))], r.choice([2, 3, 4])
        else:                                # deep
            sh, mv = [shape(r, 5, 2, 0.7, 6, 2)], 2
        w = dict(weights or ALGEBRA)
        w.update(extra or {})
        g = DD(r, sh, maxv=mv, nslots=r.choice([10, 16, 24]))
        out.append(g.run(steps, w, sizes(r, r.random() < tiny, True)))
    return out


def similar_scripts(ctx, n, tag, size=120):
    """Many diagrams that differ in one place only (the variable, one value, one successor, the kind of node),
    alive at the same time, in small tables, then some of them built again by another route."""
    out = []
    for i in range(n):
        r = ctx.rng(tag, i)
        o = ["init " + " ".join(map(str, sizes(r, r.random() < 0.8)))]
        emit = lambda *a: o.append(" ".join(map(str, a)))
        nv = r.choice([2, 3, 8])
        allv = [list(c) for k in (1, 2, nv - 1) for c in itertools.combinations(range(nv), k)]
        pick = lambda: r.choice(allv)
        lst = lambda v: "%d %s" % (len(v), " ".join(map(str, v)))
        emit("one", 0)
        mk, at = [], {}                        # recipes, slot of each
        succ = [0]                             # successors in use
        vars_ = r.sample(range(4, 200), r.choice([3, 12, 40]))
        slot = [1]
        def new(rec):
            d = slot[0]
            slot[0] += 1
            build(rec, d)
            mk.append(rec)
            at[rec] = d
            return d
        def build(rec, d):
            if rec[0] == "f":
                emit("flat", d, rec[1], lst(rec[2]), rec[3], r.randint(0, 1))
            elif rec[0] == "h":
                emit("hier", d, rec[1], rec[2], rec[3])
            else:                              # two arcs
                for k, (v, s_) in enumerate(rec[2:]):
                    emit("flat", 2050 + k, rec[1], lst(v), s_, 0)
                ops = [2050, 2051]
                if r.random() < 0.5:
                    ops.reverse()
                emit("bin", "+", d, *ops)
                emit("del", 2050)
                emit("del", 2051)
        for v in (0, 1):
            for w in r.sample(allv, min(2, len(allv))):
                succ.append(new(("f", v, tuple(w), 0)))
        below = [d for d in succ if d]
        for _ in range(size):
            k = r.random()
            v = r.choice(vars_)
            if mk and r.random() < 0.5:        # a variation of an earlier one
                rec = list(r.choice(mk))
                j = r.choice([1, 1, 2, 3])
                if j == 1:
                    rec[1] = v
                elif rec[0] == "f":
                    rec[j] = tuple(pick()) if j == 2 else r.choice(succ)
                elif rec[0] == "h":
                    rec[j] = r.choice(below) if j == 2 else r.choice(succ)
                else:
                    a = list(rec[j])
                    a[1] = r.choice(succ)
                    rec[j] = tuple(a)
                rec = tuple(rec)
                if rec[1] < 2:
                    continue
            elif k < 0.45:
                rec = ("f", v, tuple(pick()), r.choice(succ))
            elif k < 0.7:
                rec = ("h", v, r.choice(below), r.choice(succ))
            else:
                w = pick()
                x = [y for y in range(nv) if y not in w]
                if not x:
                    continue
                a, b = r.choice(succ), r.choice(succ)
                if (a == 0) != (b == 0) or (a and o and not same(mk, at, a, b)):
                    continue
                rec = ("s", v, (tuple(w), a), (tuple(x), b))
            if rec in at:
                build(rec, 2052)               # again: the handle must be equal to the first one
                emit("del", 2052)
            elif rec[0] != "s" or same(mk, at, rec[2][1], rec[3][1]):
                new(rec)
            if r.random() < 0.05 and at:
                g = r.choice([x for x in at if at[x] not in succ] or [None])
                if g is not None:
                    emit("del", at.pop(g))
                    mk.remove(g)
        emit("audit")
        for rec in list(at):
            if r.random() < 0.2:
                build(rec, 2052)
        emit("shutdown")
        out.append(o)
    return out


def same(mk, at, a, b):
    """successors of the same variable"""
    va = [rec[1] for rec in mk if at.get(rec) == a]
    vb = [rec[1] for rec in mk if at.get(rec) == b]
    return a == b or va == vb


def wide_scripts(ctx, n, tag, nvals, observe=(), many=None):
    """Nodes with many arcs, sums and intersections of many operands."""
    out = []
    for i in range(n):
        r = ctx.rng(tag, i)
        o = ["init " + " ".join(map(str, sizes(r, r.random() < 0.4))), "relations 0", "one 0"]
        emit = lambda *a: o.append(" ".join(map(str, a)))
        lst = lambda v: "%d %s" % (len(v), " ".join(map(str, v)))
        vs = list(range(nvals))
        nl = r.choice([3, 12, 40])
        leafs = list(range(10, 10 + nl))
        for k in leafs:
            emit("flat", k, 0, lst(r.sample(vs, r.choice([1, 1, 2, 3]))), 0, r.randint(0, 1))
        wides, nd = [], 100
        for _ in range(r.choice([3, 4, 5])):
            m = r.choice([8, 17, 33, 70, many or min(nvals, 140)])
            how = r.random()
            r.shuffle(vs)
            ops = []
            for j in range(m):
                if how < 0.4:                                 # distinct values
                    w = [vs[j % nvals]]
                elif how < 0.7:                               # intervals that overlap
                    a = r.randrange(nvals)
                    w = list(range(a, min(nvals, a + r.randint(1, 6))))
                else:
                    w = r.sample(vs, r.choice([1, 2, nvals // 2, nvals]) if j < 3 else r.choice([1, 2, 4]))
                ops.append(1000 + j)
                emit("flat", 1000 + j, 1, lst(w), leafs[j % nl] if r.random() < 0.6 else r.choice(leafs), 0)
            if r.random() < 0.7:
                emit("nary", "+", nd, lst(ops), 0)
            else:
                emit("copy", nd, ops[0])
                for x in ops[1:]:
                    emit("inplace", "+", nd, x)
            for x in ops:
                emit("del", x)
            wides.append(nd)
            nd += 1
        for _ in range(r.choice([6, 10])):
            x = r.random()
            if x < 0.7:
                emit("bin", r.choice("+&-"), nd, r.choice(wides), r.choice(wides))
            else:
                emit("nary", r.choice("+&"), nd, lst([r.choice(wides) for _ in range(r.choice([3, 4]))]), 0)
            wides.append(nd)
            nd += 1
        for _ in range(r.choice([0, 1, 2])):                  # many sub-diagrams as valuations
            ops = []
            for j in range(r.choice([3, 6, 12])):
                ops.append(1000 + j)
                emit("hier", 1000 + j, 2, r.choice(leafs), r.choice(leafs))
            emit("nary", "+", nd, lst(ops), 0)
            emit("nary", "+", nd + 1, lst(r.sample(ops, len(ops) // 2)), 0)
            emit("bin", r.choice("+&-"), nd + 2, nd, nd + 1)
            wides += [nd, nd + 2] if observe else []
            nd += 3
            wides = [w for w in wides if w < nd] if observe else wides
            for x in ops:
                emit("del", x)
            break
        emit("relations", 1)
        for w in wides:
            for ob in observe:
                emit(*[ob[0], w] + list(ob[1:]))
        emit("copy", 5, wides[0])
        emit("audit")
        emit("shutdown")
        out.append(o)
    return out


def related_scripts(ctx, n, tag):
    """Operands that differ in one arc, touch, nest or swap: all operations between such relatives.

    A node is a map from values to leaves; its relatives are made by one change at its first, middle or last
    arc.  The same is then done one level up, with these nodes as valuations."""
    out = []
    for i in range(n):
        r = ctx.rng(tag, i)
        o = ["init " + " ".join(map(str, sizes(r, r.random() < 0.4))), "relations 0", "one 0"]
        emit = lambda *a: o.append(" ".join(map(str, a)))
        lst = lambda v: "%d %s" % (len(v), " ".join(map(str, v)))
        nl = r.choice([1, 2, 3, 6])
        for k in range(nl):                                   # leaves: disjoint, or nested in each other, or overlapping
            how = i % 3
            emit("flat", 10 + k, 0, lst([k] if how == 0 else list(range(k + 1)) if how == 1 else [k, k + 1]), 0, r.randint(0, 1))
        sz = r.choice([1, 2, 3, 5, 9, 20])
        lo = r.randrange(8)
        base = {lo + j: j % nl if r.random() < 0.7 else r.randrange(nl) for j in range(sz)}
        if r.random() < 0.5:                                  # wide valuations: runs of values with the same leaf
            run = r.choice([2, 3, 5])
            base = {lo + j: (j // run) % nl for j in range(sz)}

        def relatives(A):
            ks = sorted(A)
            spots = {ks[0], ks[len(ks) // 2], ks[-1]}
            top = ks[-1] + 1
            R = [dict(A)]
            for k in spots:
                R.append({x: l for x, l in A.items() if x != k})              # one value less
                R.append({**A, k: (A[k] + 1) % nl})                           # another successor
                R.append({top if x == k else x: l for x, l in A.items()})     # another value
            R.append({**A, top: r.randrange(nl)})
            R.append({x: (l + 1) % nl for x, l in A.items()})                 # all successors shifted
            R.append({x: 0 for x in A})                                       # all the same
            R.append({x + len(A) - 1: l for x, l in A.items()})               # touching
            R.append({x + len(A): l for x, l in A.items()})                   # next to
            R.append({x + 1: l for x, l in A.items()})
            R.append({x: l for x, l in A.items() if x % 2})
            R.append({x: l for x, l in A.items() if l == A[ks[0]]})           # a single arc of it
            R.append({ks[-1]: l for l in range(1)})
            return [x for x in R if x]

        def build(slot, A, level):
            by = {}
            for x, l in A.items():
                by.setdefault(l, []).append(x)
            ops = []
            for j, (l, w) in enumerate(by.items()):
                emit("flat", 1000 + j, level, lst(w), 10 + l, 0)
                ops.append(1000 + j)
            r.shuffle(ops)
            emit("nary", "+", slot, lst(ops), 0)
            for x in ops:
                emit("del", x)
        rel = relatives(base)
        r.shuffle(rel)
        rel = rel[:8]
        for j, A in enumerate(rel):
            build(100 + j, A, 1)
        nd = 200

        def ops(slots, nary):
            k = len(slots)
            for op in r.sample("+&-", 2):
                for a in slots:
                    for b in slots:
                        if r.random() < 0.5:
                            emit("bin", op, 300, a, b)
            for _ in range(nary):
                emit("nary", r.choice("+&"), 300, lst([r.choice(slots) for _ in range(r.choice([3, 4]))]), 0)
        emit("clearall") if r.random() < 0.3 else None
        ops([100 + j for j in range(len(rel))], 6)
        # one level up: those nodes as valuations
        up = []
        for j in range(5):
            hs = []
            for q in range(r.choice([1, 2, 3])):
                emit("hier", 1000 + q, 2, 100 + (j + q * r.choice([1, 2])) % len(rel), 100 + r.randrange(len(rel)))
                hs.append(1000 + q)
            emit("nary", "+", 200 + j, lst(hs), 0)
            up.append(200 + j)
        ops(up, 4)
        emit("shutdown")
        out.append(o)
    return out


def wide_groups(ctx, k, foc, observe=()):
    """k: scripts per configuration"""
    return [([1, 2], lambda: wide_scripts(ctx, 2 * k, "wide320", 320, observe), foc, "wide320"),
            ([0, 3], lambda: wide_scripts(ctx, 2 * k, "wide64", 64, observe), foc, "wide64"),
            ([4], lambda: wide_scripts(ctx, k, "wide130", 130, observe), foc, "wide130")] + huge_groups(ctx, foc)


def huge_groups(ctx, foc):
    """diagrams with more arcs, operands and references than 8 or 16 bits can count"""
    def scripts():
        r, out = ctx.rng("huge"), []
        for n in [256 + r.randrange(40), 65536 + r.randrange(300)] + ctx.n([], [131072 + r.randrange(300)]):
            out.append(["init " + " ".join(map(str, sizes(r, False))), "huge %d %d" % (n, r.randrange(1, 5)), "shutdown"])
        return out
    return [([1], scripts, foc, "huge")]


def exhaustive_scripts(levels, nv, ops, rng, narys=0, tiny=True, subs=()):
    """All sets of assignments of a small shape, and all pairs of them under each operation."""
    sh = Shape(levels)
    out = ["init " + " ".join(map(str, sizes(rng, tiny))), "relations 0"]
    emit = lambda *a: out.append(" ".join(map(str, a)))
    T = 2050                                  # temporaries above the table
    emit("one", T)

    def single(sig, vals, d, tmp):
        """singleton in slot d; vals: iterator over leaf values"""
        if sig == ():
            emit("copy", d, T)
            return
        e = sig[0]
        if len(e) == 1:
            v = next(vals)
            single(sig[1:], vals, tmp, tmp + 2)
            emit("flat", d, e[0], 1, v, tmp, 0)
        else:
            single(e[1], vals, tmp + 1, tmp + 2)
            single(sig[1:], vals, tmp, tmp + 2)
            emit("hier", d, e[0], tmp + 1, tmp)
    k = sh.leaves()
    points = list(itertools.product(range(nv), repeat=k))
    for j, p in enumerate(points):
        single(sh.sig(), iter(p), 2000 + j, T + 1)
    n = 1 << len(points)
    emit("zero", 0)
    for m in range(1, n):
        low = (m & -m).bit_length() - 1
        emit("bin", "+", m, m & (m - 1), 2000 + low)
    out.append("audit")
    for op in ops:
        emit("pairs", op, 0, n)
    for op, k in subs:
        emit("subsets", op, 0, n, k)
    for _ in range(narys):
        l = [rng.randrange(n) for _ in range(rng.randint(2, 7))]
        emit("nary", rng.choice("++&"), T + 20, len(l), *l, rng.randint(0, 1))
    out.append("audit")
    out.append("shutdown")
    return out


def hom_scripts(ctx, n, tag, weights, steps=12, tiny=0.5, depth=3, mk=None, maxleaves=6):
    out = []
    for i in range(n):
        r = ctx.rng(tag, i)
        sh = shape(r, 3, 3, 0.5, maxleaves)
        tr = homgen.tree_of(sh, [r.choice([0, 0, 3])])
        if r.random() < 0.5:
            tr = homgen.relabel(r, tr)
        g = (mk or homgen.Hom)(r, tr, maxv=r.choice([2, 2, 3]) if sh.leaves() > 3 else r.choice([2, 3, 5]))
        out.append(g.run(steps, weights, sizes(r, r.random() < tiny)))
    return out


def tall_scripts(ctx, n, tag, weights, steps=10, mk=None, fix=True):
    """homomorphisms over orders of many identifiers, wide or deep, and diagrams of few assignments"""
    out = []
    for i in range(n):
        r = ctx.rng(tag, i)
        while True:
            sh = sized(r, r.randint(7, 16), r.choice([1, 2, 3, 4, 7]), r.choice([0.3, 0.5, 0.7]))
            tr = homgen.tree_of(sh, [0])
            if len(homgen.all_ids(tr)) - sh.leaves() <= 24:    # each of them has an order
                break
        if r.random() < 0.5:
            tr = homgen.relabel(r, tr)
        g = (mk or homgen.Hom)(r, tr, maxv=r.choice([2, 3]))
        g.thin, g.near, g.reuse = True, 1.0, 0.15
        out.append(g.run(steps, weights, sizes(r, r.random() < 0.5)))
    return out


def vast_scripts(ctx, n, tag, homs=True):
    """orders of more than 256 identifiers: in one level, or in two"""
    out = []
    for i in range(n):
        r = ctx.rng(tag, i)
        names = list(range(600))
        r.shuffle(names)
        take = lambda m: [(names.pop(), []) for _ in range(m)]
        a, b = r.choice([(290, 0), (150, 140), (5, 270), (270, 8)])
        tree = take(a)
        h = names.pop()
        if b:
            tree.insert(r.randrange(a), (h, take(b)))
        ls = list(leaves(tree))
        s = ["init " + " ".join(map(str, sizes(r, False))), "order 0 " + homgen.tree_text(tree)]
        for d in (0, 1):
            many = set(r.sample(ls, 3))
            init = [(x, r.sample(range(4), 2) if x in many else [r.randrange(4)]) for x in ls]
            s.append("fromorder %d 0 %d " % (d, len(init)) + " ".join("%d %d %s" % (x, len(v), " ".join(map(str, v))) for x, v in init))
        s.append("bin + 2 0 1")
        if homs:
            table = lambda f: " ".join("1 %d" % f(v) for v in range(8))
            low = ls[-1]
            for k, x in enumerate([low] + r.sample(ls, 3)):
                s.append("hfun %d 0 %d %d %s" % (k, x, r.choice([0, 1]), table(lambda v: (v + k + 1) % 4 if v < 4 else v)))
                s.append("apply 3 %d 0 2 0" % k)
            s += ["hcomp 4 0 1", "apply 4 4 0 2 0", "hid 9", "hsum 5 0 3 9 0 2", "apply 5 5 0 0 0", "hsum 7 0 3 9 1 2", "hfix 8 7", "hrw 10 0 8", "apply 6 8 0 1 0", "apply 7 10 0 1 0",
                  "bin - 8 5 0"]
        out.append(s)
    return out


def deep_scripts(ctx, n, tag, m=1300):
    """diagrams of more than a thousand variables, in one level or in two: the depth of every recursion over them"""
    out = []
    for i in range(n):
        r = ctx.rng(tag, i)
        names = list(range(2 * m))
        r.shuffle(names)
        take = lambda k: [(names.pop(), []) for _ in range(k)]
        a = r.choice([m, m // 2, 3])
        tree = take(a)
        if m - a:
            tree.insert(r.randrange(a + 1), (names.pop(), take(m - a)))
        ls = list(leaves(tree))
        s = ["init " + " ".join(map(str, sizes(r, False))), "order 0 " + homgen.tree_text(tree)]
        for d in (0, 1):
            many = set(r.sample(ls, 2))
            init = [(x, r.sample(range(4), 2) if x in many else [r.randrange(4)]) for x in ls]
            s.append("fromorder %d 0 %d " % (d, len(init)) + " ".join("%d %d %s" % (x, len(v), " ".join(map(str, v))) for x, v in init))
        out.append(s + ["paths 0 -1", "bin + 2 0 1", "paths 2 -1", "gopen 0 2", "gnext 0 1", "bin - 3 2 0", "bin & 4 2 0", "paths2 3 4", "paths 2 1", "del 2", "gnext 0 1", "gclose 0", "paths 3 -1", "shutdown"])
    return out


def batches(scripts, k):
    """k batches of consecutive scripts"""
    n = max(1, (len(scripts) + k - 1) // k)
    return [scripts[i:i + n] for i in range(0, len(scripts), n)]


def run_dd(ctx, groups, models=(), later=None, known=()):
    """groups: list of (confs, scripts, constants, tag): the scripts are dealt to the configurations."""
    lf = ctx.pool.submit(later, ctx) if later else None
    confs = sorted({c for g in groups for c in g[0]})
    futs = {c: ctx.pool.submit(ctx.build, "dd", c) for c in confs}
    mf = [(f, a) for f, a in models]
    groups = [(c, x() if callable(x) else x, k, t) for c, x, k, t in groups]    # generated while the drivers build
    bins = {}
    for c, f in futs.items():
        bins[c] = f.result()
    ctx.log("drivers built")
    jobs = list(mf) + (lf.result() if lf else []) + [(known_script, (ctx, bins[confs[0]]) + k) for k in known]
    for confs_, scripts, cst, tag in groups:
        per = {c: [] for c in confs_}
        for i, s in enumerate(scripts):
            per[confs_[i % len(confs_)]].append(s)
        for c, ss in per.items():
            if not ss:
                continue
            nb = len(ss) if tag == "ex" else max(1, min(8, sum(len(s) for s in ss) // 6000))
            for j, b in enumerate(batches(ss, nb)):
                jobs.append((ctx.conform, (bins[c], b, "TraceDD", cst, "%s-c%d-%d" % (tag, c, j))))
    ctx.parallel(jobs)


def known_script(ctx, binary, key, script, cst, last):
    """A recorded finding: the script whose event number `last` is refused as long as the defect is there."""
    text = next((k for k in ctx.known if k.startswith(key + " ")), None)
    if text is None:
        return ctx.conform(binary, [script], "TraceDD", cst, "known-" + key)
    log = ctx.drive(binary, script, "known-" + key)
    r = ctx.validate("TraceDD", log, cst, "known-" + key)
    if r is not None:
        if r[0] != last:
            raise vf.Violation("event %d of the script of finding %s refused (%s)" % (r[0], key, ", ".join(r[1])), [os.path.join(ctx.dir, "known-%s.script" % key), log])
        with ctx.lock:
            ctx.known_hit.add(text)


# -------------------------------------------------------------------------------------------------------
HOMS = "SPECIFICATION Spec\nVIEW View\nINVARIANTS Sound Linear\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  CASE_ = %d\n  DEPTH = %d\n  RICH = %s\n  SIM = %s\n"


def homs(ctx, cases, keep, tag):
    """Scripts out of the behaviours of Homs: [(case, depth, rich, simulated behaviours or 0)]; `keep` of them."""
    def one(case, depth, rich, sim):
        extra = ("-simulate", "num=%d" % sim, "-depth", str(depth + 1), "-seed", str(ctx.seed)) if sim else ()
        name = "Homs-%d-%d-%s%s" % (case, depth, "r" if rich else "p", "s" if sim else "")
        cfg = HOMS % (case, depth, "TRUE" if rich else "FALSE", "TRUE" if sim else "FALSE")
        if sim:
            cfg = cfg.replace("ACTION_CONSTRAINT Emit\n", "INVARIANT EmitLast\n")
        return ctx.generate("Homs", cfg, name, extra=extra)
    fs = [ctx.pool.submit(one, *c) for c in cases]
    out = []
    for c, f in zip(cases, fs):
        got = f.result()
        out += memchecks.thin(ctx, got, max(1, keep // len(cases)), tag + str(c))
    r = ctx.rng("homs", tag)
    return [["init " + " ".join(map(str, sizes(r, True)))] + [x for x in s if x] + ["shutdown"] for s in out]


def simulated(ctx, depth):
    return [(c, depth + (k % 2), True, ctx.n(60, 900)) for k, c in enumerate((2, 3, 4, 5, 6) if ctx.quick else (1, 2, 3, 4, 5, 6, 8, 9))]


class Leafy(homgen.Hom):
    """C14: elementary homomorphisms, possibly under locals."""
    def s_apply(self, depth=3):
        r = self.r
        t = r.choice([u for _, u in self.orders] + [self.tree] * 2)
        self.reuse = 0.1
        h = self.pin(self.elem(t, r.choice([0, 0, 1, 2])))
        x, _ = self.apply(h)
        if r.random() < 0.5:
            self.apply(h)
        self.unpin(h)

    def elem(self, t, depth):
        if depth and hier_here(t):
            i, s = self.r.choice(hier_here(t))
            g = self.pin(self.elem(s, depth - 1))
            h = self.hfree()
            if self.r.random() < 0.3:
                self.emit("hcarrier", h, self.oslot(t), self.r.choice([x for x, _ in s]), g)
            else:
                self.emit("hlocal", h, self.oslot(t), i, g)
            self.unpin(g)
            return self.put(h, t, sel=self.h[g]["sel"])
        return self.t_leaf(t, 0, True, False)


hier_here = homgen.hier_here

COMPS = [0, 1, 2, 3, 4]
PACKED = COMPS + [5]           # 5: configuration 1 in the packed mode


def c01(ctx):
    foc = consts(["set"])
    jobs = []
    ex = []
    r = ctx.rng("ex")
    F = None
    shapes = [([F, F, F], 2), ([Shape([F, F]), F], 2), ([F, Shape([F, F])], 2)]
    if not ctx.quick:
        shapes += [([F, F], 3), ([Shape([Shape([F]), F]), F], 2), ([Shape([F]), Shape([F, F])], 2), ([Shape([F]), Shape([F])], 3), ([F], 8)]
    for lv, nv in shapes:
        for op in "+&-":
            ex.append(exhaustive_scripts(lv, nv, op, r, narys=300))
    for lv in [[F, F], [Shape([F, F])], [Shape([F]), F], [F, Shape([F])]]:
        for op in "+&":
            ex.append(exhaustive_scripts(lv, 2, "", r, subs=[(op, 3), (op, 4)] if ctx.quick else [(op, k) for k in (3, 4, 5, 6)]))
    for lv, nv in [([F], 4), ([Shape([F])], 4)]:
        ex.append(exhaustive_scripts(lv, nv, "", r, subs=[(op, k) for op in "+&" for k in ((3, 4) if ctx.quick else (3, 4, 5, 6))]))
    groups = [(COMPS, ex, foc, "ex"),
              (COMPS, alg_scripts(ctx, ctx.n(500, 12000), "alg"), foc, "alg"),
              (COMPS, related_scripts(ctx, ctx.n(60, 3000), "rel"), foc, "rel")] + wide_groups(ctx, ctx.n(2, 60), foc)
    run_dd(ctx, groups, models=algebra(ctx))


ALGEBRA_CFG = "SPECIFICATION Spec\nINVARIANTS Right Canonical Partition\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  OP = \"%s\"\n  NVAL = %d\n  NTOK = %d\n  NOPS = %d\n"


def algebra(ctx):
    """the algorithms of the operations, every order of visit, every operand in bounds"""
    b = [("sum", 3, 2, 2), ("sum", 2, 2, 3), ("inter", 3, 2, 2), ("inter", 2, 2, 3), ("diff", 3, 2, 2)]
    if not ctx.quick:
        b += [("sum", 4, 1, 3), ("sum", 2, 3, 2), ("sum", 3, 1, 4), ("inter", 3, 2, 3), ("diff", 4, 2, 2)]
    return [(ctx.model, ("Algebra", ALGEBRA_CFG % x, "Algebra-%s-%d-%d-%d" % x)) for x in b]


def c02(ctx):
    foc = consts(["canon", "eq", "set"])
    w = dict(ALGEBRA, clear=1.5)
    hw = dict(apply=6, cons=3, alg=8, fromorder=3, clear=2, audit=1)
    run_dd(ctx, [(COMPS, alg_scripts(ctx, ctx.n(400, 9000), "alg", w), foc, "alg"),
                 (COMPS, similar_scripts(ctx, ctx.n(40, 1500), "sim"), foc, "sim"),
                 (COMPS, related_scripts(ctx, ctx.n(30, 1500), "rel"), foc, "rel"),
                 (COMPS, hom_scripts(ctx, ctx.n(120, 3000), "hom", hw), foc, "hom")] + wide_groups(ctx, ctx.n(1, 40), foc), models=algebra(ctx))


def c03(ctx):
    foc = consts(["top", "set", "handle", "canon", "leak", "reclaim"])
    w = dict(ALGEBRA, binx=10, naryx=6, audit=1.5, build=6, again=5)

    def shapes(r):
        k = r.random()
        if k < 0.5:
            return [shape(r, 3, 3, 0.5, 4) for _ in range(3)], r.choice([2, 3])
        # shapes that differ only deep down
        a = shape(r, 3, 3, 0.6, 5, 2)
        return [a, mutate(r, a), mutate(r, a)], r.choice([2, 3, 5])
    run_dd(ctx, [(COMPS, alg_scripts(ctx, ctx.n(450, 9000), "alg", w, shapes=shapes, steps=70), foc, "alg")])


def mutate(r, s):
    """the same shape but for one place"""
    ls = list(s.levels)
    i = r.randrange(len(ls))
    if ls[i] is not None and r.random() < 0.6:
        ls[i] = mutate(r, ls[i])
    elif ls[i] is None:
        ls[i] = Shape([None]) if r.random() < 0.6 else Shape([None, None])
    else:
        ls[i] = None
    if r.random() < 0.2:
        ls.append(None)
    return Shape(ls)


class Big(homgen.Hom):
    """large diagrams: only structure and counts are tracked"""
    def s_main(self):
        self.s_fromorder()

    def s_size(self):
        if self.slot:
            self.emit("size", self.pick())

    def s_sum(self):
        for _ in range(self.r.choice([2, 3, 4])):
            self.s_fromorder_main()
        c = self.with_sig(tree_sig(self.tree))
        self.r.shuffle(c)
        d = self.free()
        self.emit("nary", "+", d, self.lst(c[:4]), 0)
        self.slot[d] = tree_sig(self.tree)
        self.emit("size", d)

    def s_fromorder_main(self):
        # the diagrams of a script differ on a few leaves only, so that results stay small
        ls = leaves(self.tree)
        if not hasattr(self, "common"):
            self.common = {i: self.bigvals() for i in ls}
            self.special = self.r.sample(ls, min(4, len(ls)))
        own = dict(self.common)
        for i in self.r.sample(self.special, self.r.randint(1, len(self.special))):
            own[i] = self.bigvals()
        init = [(i, own[i]) for i in ls]
        d = self.free()
        self.emit("fromorder", d, 0, len(init), " ".join("%d %s" % (i, self.lst(v)) for i, v in init))
        self.slot[d] = tree_sig(self.tree)

    def bigvals(self):
        return [v for v in range(8) if self.r.random() < self.p] or [0]

    def s_alg(self):
        if not self.slot:
            self.s_fromorder_main()
        a = self.pick()
        b = self.pick_compatible(a)
        d = self.free()
        self.emit("bin", self.r.choice("+&-"), d, a, b)
        self.slot[d] = self.join(self.slot[a], self.slot[b])
        self.emit("size", d)

    def s_hier(self):
        """the same diagram as valuation and as successor"""
        a = self.pick() if self.slot else None
        if a is None or self.slot[a] in ((), "zero"):
            return self.s_fromorder_main()
        d = self.tmp_keep([a])
        v = self.slot[a][0][0] + 1
        self.emit("hier", d, v, a, a)
        self.emit("size", d)
        self.emit("tools", d)
        self.emit("del", d)


tree_sig, leaves = homgen.tree_sig, homgen.leaves


def split_shape(r, n, depth):
    """a shape with exactly n leaves"""
    ls = []
    while n:
        k = 1 if depth <= 1 or r.random() < 0.6 else r.randint(1, n)
        ls.append(None if k == 1 and r.random() < 0.8 or depth <= 1 else split_shape(r, k, depth - 1))
        n -= k
    return Shape(ls)


def big_scripts(ctx, n, tag, weights, lo=5, hi=60, steps=20):
    out = []
    for i in range(n):
        r = ctx.rng(tag, i)
        sh = split_shape(r, r.randint(lo, hi), r.choice([1, 2, 3, 5, 8]))
        g = Big(r, homgen.tree_of(sh, [0]), maxv=8, nslots=8)
        g.p = r.choice([0.3, 0.7, 0.9])
        init = sizes(r, False)
        g.pinned = {}
        g.emit("init", *init)
        g.emit("relations", 0)
        g.make_orders = lambda g=g: None
        g.emit("order", 0, homgen.tree_text(g.tree))
        g.orders = [(0, g.tree)]
        names, w = zip(*weights.items())
        for _ in range(steps):
            getattr(g, "s_" + g.r.choices(names, w)[0])()
        for s in sorted(g.slot):
            g.emit("size", s)
            g.emit("tools", s)
        g.emit("shutdown")
        out.append(g.out)
    return out


def c04(ctx):
    w = dict(ALGEBRA)
    w[("size",)] = 12
    small = alg_scripts(ctx, ctx.n(350, 8000), "alg", w)
    big = big_scripts(ctx, ctx.n(60, 1500), "big", dict(fromorder_main=3, sum=2, alg=4, size=2, hier=2))
    run_dd(ctx, [(COMPS, small, consts(["count", "handle"]), "alg"),
                 (COMPS, big, consts(["count"], den=False, count=True), "big")] + wide_groups(ctx, ctx.n(2, 60), consts(["count"], den=False, count=True), [("size",)]))


def c05(ctx):
    w = dict(ALGEBRA, audit=1, gen=9)
    w["del"] = 3
    w[("paths", "paths", "paths2")] = 12
    run_dd(ctx, [(COMPS, alg_scripts(ctx, ctx.n(450, 9000), "alg", w), consts(["paths", "handle"]), "alg"),
                 ([0, 2, 4], deep_scripts(ctx, ctx.n(3, 40), "deep"), consts(["paths"]), "deep")] + wide_groups(ctx, ctx.n(1, 40), consts(["paths"]), [("paths", -1)]))


HANDLES = dict(main=4, build=4, bin=6, inplace=4, nary=3, term=1, copy=8, move=5, swap=5, sub=10, clear=2.5, audit=3, binx=1)
HANDLES["del"] = 7


def c06(ctx):
    foc = consts(["handle", "eq", "reclaim", "leak"])
    hw = dict(apply=5, cons=2, twice=2, handles=10, throw=1, fromorder=2, clear=3, audit=3, alg=4)
    run_dd(ctx, [(PACKED, alg_scripts(ctx, ctx.n(400, 9000), "alg", HANDLES, steps=80), foc, "alg"),
                 (PACKED, hom_scripts(ctx, ctx.n(150, 3500), "hom", hw), foc, "hom")] + huge_groups(ctx, foc), later=memchecks.ptr_jobs)


# the homomorphism cache does not tell two levels apart: an inductive homomorphism that looks at identifiers
KNOWN_ORDER = ("hom-cache-order", ["init 64 64 64 64 4096 64 64 0", "order 0 2 0 1 1 0 2 1 3 0", "one 0", "flat 1 0 1 0 0 0", "hier 2 0 1 0", "hier 3 1 1 2",
                                   "hind 0 1 1 1 1 1 1 1 1 2 1 3 1 4 1 5 1 6 1 7", "hlocal 1 0 0 0", "hlocal 2 0 2 0",
                                   "apply 4 2 0 3 0", "apply 5 1 0 3 0", "shutdown"], consts(["hom"]), 11)


def c07(ctx):
    foc = consts(["set", "hom", "eq", "canon"])
    scripts = []
    n = ctx.n(55, 1300)
    # the same programs under many sizes
    base = alg_scripts(ctx, n, "alg", dict(ALGEBRA, clear=2)) + \
        hom_scripts(ctx, n, "hom", dict(apply=8, twice=2, cons=1, throw=1, clear=2, alg=4, fromorder=1))
    for i, b in enumerate(base):
        r = ctx.rng("sizes", i)
        for k in range(ctx.n(5, 6)):
            s = list(b)
            s[0] = "init " + " ".join(map(str, sizes(r, k > 0)))
            if k == 2:                      # the program twice in a row: everything served from warm caches
                s = s[:-1] + [x for x in b[1:]]
            if k == 3:                      # caches dropped before every operation
                s = [y for x in s for y in (["resetcache", x] if x.split()[0] in ("apply", "hsum", "hrw") else ["clearall", x] if x.split()[0] in ("bin", "nary") else [x])]
            scripts.append(s)
    run_dd(ctx, [(PACKED, scripts, foc, "sizes")], known=[KNOWN_ORDER])


class FromOrder(homgen.Hom):
    def s_anyorder(self):
        r = self.r
        if r.random() < 0.06:
            tree = []
        else:
            big = r.random() < 0.2
            sh = sized(r, r.choice([8, 12, 20, 40, 80]), r.choice([1, 2, 4, 9]), r.choice([0.3, 0.5, 0.7])) if big else shape(r, 4, 4, 0.4, 7)
            tree = homgen.tree_of(sh, [r.choice([0, 5])])
            if r.random() < 0.5:
                tree = homgen.relabel(r, tree)
            if r.random() < 0.3:            # artificial hierarchy levels
                tree = [(-1, s) if s else (i, s) for i, s in tree]
        k = r.randint(21, 25)
        self.emit("order", k, homgen.tree_text(tree))
        nl = sum(1 for _ in leaves(tree))
        two = nl > 4
        for _ in range(r.choice([1, 2])):
            init = [(i, r.sample(range(self.maxv), min(self.maxv, r.choice([1, 2]))) if two else self.vals()) for i in leaves(tree)]
            if nl > 7:                      # few assignments
                init = [(i, [r.randrange(self.maxv)]) for i, _ in init]
                for j in r.sample(range(nl), 3):
                    init[j] = (init[j][0], self.vals())
            if r.random() < 0.1 and init:
                j = r.randrange(len(init))
                init[j] = (init[j][0], [])
            d = self.free()
            if r.random() < 0.1:
                self.emit("arm", r.randint(1, 3))
                self.emit("fromorder", d, k, len(init), " ".join("%d %s" % (i, self.lst(v)) for i, v in init))
                self.emit("disarm")
            self.emit("fromorder", d, k, len(init), " ".join("%d %s" % (i, self.lst(v)) for i, v in init))
            self.slot[d] = tree_sig(tree)
        # a sub-order is an order too
        if tree and r.random() < 0.3:
            self.emit("nextorder", 26, k)
            sub = tree[1:]
            init = [(i, [r.randrange(self.maxv)]) for i in leaves(sub)]
            d = self.free()
            self.emit("fromorder", d, 26, len(init), " ".join("%d %s" % (i, self.lst(v)) for i, v in init))
            self.slot[d] = tree_sig(tree)[1:]
        if r.random() < 0.3:
            self.emit("delorder", k)


def c13(ctx):
    foc = consts(["init", "canon", "eq", "handle"])
    run_dd(ctx, [(COMPS, hom_scripts(ctx, ctx.n(350, 8000), "init", dict(anyorder=10, fromorder=3, alg=2, clear=0.5, audit=0.5), mk=FromOrder, steps=18), foc, "init"),
                 ([0, 1, 4], vast_scripts(ctx, ctx.n(3, 60), "vast", False), foc, "vast")])


HOMF = ["hom", "hnew", "hsel", "init"]


def c14(ctx):
    w = dict(apply=10, cons=4, clear=0.5, fromorder=1, handles=0.5)
    run_dd(ctx, [(COMPS, hom_scripts(ctx, ctx.n(600, 14000), "elem", w, mk=Leafy, steps=16), consts(HOMF), "elem"),
                 (COMPS, tall_scripts(ctx, ctx.n(60, 2000), "tall", w, mk=Leafy, steps=16), consts(HOMF), "tall"),
                 ([0, 1, 4], vast_scripts(ctx, ctx.n(3, 40), "vast"), consts(HOMF), "vast"),
                 (COMPS, lambda: homs(ctx, [(c, ctx.n(1, 2), ctx.quick, 0) for c in ((1, 2, 4) if ctx.quick else (1, 2, 3, 4, 5, 6))], ctx.n(600, 20000), "elem"), consts(HOMF), "gen")])


class Combi(homgen.Hom):
    def s_apply(self, depth=3):
        r = self.r
        t = r.choice([u for _, u in self.orders] + [self.tree] * 3)
        k = r.choice(["sum", "inter", "comp", "fix", "ite", "local", "sum", "inter"])
        self.narrow(t)
        h = self.pin(getattr(self, "t_" + k)(t, r.choice([1, 2, 2, 3]), r.random() < 0.6, False))
        self.wide()
        x, _ = self.apply(h)
        if r.random() < 0.6:
            self.apply(h)
        self.unpin(h)

    def t_rw(self, t, depth, lin, sel):
        return self.t_sum(t, depth, lin, sel)


class Simpl(homgen.Hom):
    """Terms with neutral and absorbing parts: identities, constants, nothing, selectors that refuse or accept
    everything, the same operand several times, nested and singleton combinations."""
    NONE = " ".join(["0"] * 8)
    ALL = " ".join("1 %d" % v for v in range(8))

    def t_leaf(self, t, depth, lin, sel):
        r = self.r
        k = r.choices(["id", "const", "nothing", "none", "all", "old"], [2, 0 if sel else 2, 0 if sel else 0.7, 1.5, 1, 5])[0]
        if k == "old":
            return homgen.Hom.t_leaf(self, t, depth, lin, sel)
        if k in ("const", "nothing"):
            if k == "nothing":
                d = self.free()
                self.emit("zero", d)
                self.slot[d] = "zero"
            else:
                d = self.diagram(t)
            h = self.hfree()
            self.emit("hconst", h, d)
            return self.put(h, t)
        h = self.hfree()
        if k == "id":
            self.emit("hid", h)
        else:
            self.emit("hfun", h, self.oslot(t), self.aim(leaves(t)), 2, self.NONE if k == "none" else self.ALL)
        return self.put(h, t, sel=True)

    def operands(self, t, depth, lin, sel, n):
        ops = homgen.Hom.operands(self, t, depth, lin, sel, n)
        if len(ops) > 1 and self.r.random() < 0.25:
            i, j = self.r.sample(range(len(ops)), 2)
            self.unpin(ops[i])
            ops[i] = self.pin(ops[j])
        return ops

    def s_apply(self, depth=3):
        r = self.r
        t = r.choice([u for _, u in self.orders] + [self.tree] * 3)
        k = r.choice(["sum", "inter", "comp", "comp", "comp", "fix", "ite", "local"])
        self.narrow(t, 0.5)
        h = self.pin(getattr(self, "t_" + k)(t, r.choice([1, 1, 2, 2, 3]), r.random() < 0.6, False))
        self.wide()
        x, _ = self.apply(h)
        for _ in range(r.choice([1, 2])):
            self.apply(h)
        if r.random() < 0.3:
            d = self.free()
            self.emit("zero", d)
            self.slot[d] = "zero"
            self.apply(h, d)
        self.unpin(h)

    def t_rw(self, t, depth, lin, sel):
        return self.t_comp(t, depth, lin, sel)


class Net(homgen.Hom):
    """The use the library is made for: the states of a net of places and transitions, over a longer order,
    by plain iteration and by saturation."""
    DEC = " ".join(["0"] + ["1 %d" % (v - 1) for v in range(1, 8)])
    INC = " ".join(["1 %d" % (v + 1) for v in range(7)] + ["0"])
    ZERO = "1 0" + " 0" * 7
    SET0 = " ".join(["1 0"] * 8)

    def fun(self, t, place, tab, sel):
        h = self.hfree()
        self.emit("hfun", h, self.oslot(t), place, 2 if sel else self.r.choice([0, 1]), tab)
        return self.put(h, t, sel=sel)

    def comp(self, t, fs):
        """fs[0] first"""
        h = fs[0]
        self.pin(h)
        for f in fs[1:]:
            g = self.hfree()
            self.emit("hcomp", g, f, h)
            self.put(g, t, sel=self.h[f]["sel"] and self.h[h]["sel"])
            self.unpin(h)
            h = self.pin(g)
        self.unpin(h)
        return h

    def transition(self, t, places, first=None):
        r = self.r
        pre = r.sample(places, min(len(places), r.choice([1, 1, 1, 1, 2])))
        if first is not None:
            pre = [first] + [p for p in pre[1:] if p != first]
        post = r.sample(places, min(len(places), r.choice([len(pre)] * 6 + [max(0, len(pre) - 1)])))
        fs = []
        for p in pre:
            fs.append(self.pin(self.fun(t, p, self.DEC, False)))
        if r.random() < 0.12:                      # inhibitor or reset
            p = r.choice(places)
            z = r.random() < 0.6
            fs.append(self.pin(self.fun(t, p, self.ZERO if z else self.SET0, z)))
        for p in post:
            fs.append(self.pin(self.fun(t, p, self.INC, False)))
        h = self.comp(t, fs)
        self.unpin(*fs)
        return h

    def ident(self, t):
        h = self.hfree()
        self.emit("hid", h)
        return self.put(h, t, sel=True)

    def s_net(self):
        r, t = self.r, self.tree
        ps = leaves(t)
        trans = []
        for k in range(len(ps)) if r.random() < 0.7 else r.sample(range(len(ps)), min(len(ps), r.choice([2, 4]))):
            near = r.random() < 0.6
            cand = ps[max(0, k - 2):k + 3] if near else ps
            hh = hier_here(t)
            if hh and r.random() < 0.3:            # a transition inside one module
                i, sub = r.choice(hh)
                g = self.pin(self.transition(sub, leaves(sub)))
                h = self.hfree()
                self.emit("hlocal", h, self.oslot(t), i, g)
                self.put(h, t, sel=self.h[g]["sel"])
                self.unpin(g)
            else:
                h = self.transition(t, cand, ps[k])
            trans.append(self.pin(h))
        i = self.pin(self.ident(t))
        s1 = self.hfree()
        self.emit("hsum", s1, self.oslot(t), self.lst(r.sample(trans + [i], len(trans) + 1)))
        self.put(s1, t)
        self.pin(s1)
        fx = self.hfree()
        self.emit("hfix", fx, s1)
        self.put(fx, t)
        self.pin(fx)
        rw = self.hfree()
        self.emit("hrw", rw, self.oslot(t), fx)
        self.put(rw, t)
        self.pin(rw)
        step = self.hfree()
        self.emit("hsum", step, self.oslot(t), self.lst(trans))
        self.put(step, t)
        self.pin(step)
        for _ in range(2):
            marked = r.sample(ps, min(len(ps), r.choice([1, 2, 3])))
            left = [r.choice([2, 3, 4]) if len(ps) < 7 else r.choice([2, 3])]
            init = []
            for p in ps:
                k = r.randint(min(1, left[0]), left[0]) if p in marked else 0
                left[0] -= k
                init.append((p, [k]))
            if r.random() < 0.3:
                p = r.randrange(len(ps))
                init[p] = (init[p][0], [0, 1])
            x = self.free()
            self.emit("fromorder", x, self.oslot(t), len(init), " ".join("%d %s" % (j, self.lst(v)) for j, v in init))
            self.slot[x] = tree_sig(t)
            for h in r.choice([(fx, rw), (rw, fx), (rw,), (step, rw, fx)]):
                _, d = self.apply(h, x)
                if r.random() < 0.3:
                    self.emit("resetcache")
            if r.random() < 0.5:                   # deadlocks and successors of what was reached
                self.apply(step, d)
        self.pinned = {}


def net_scripts(ctx, n, tag, lo=3, hi=12):
    out = []
    for i in range(n):
        r = ctx.rng(tag, i)
        sh = split_shape(r, r.randint(lo, hi), r.choice([1, 2, 3, 4]))
        g = Net(r, homgen.tree_of(sh, [r.choice([0, 3])]), maxv=8, nslots=12, nhoms=120)
        out.append(g.run(r.choice([1, 2]), dict(net=1), sizes(r, r.random() < 0.4)))
    return out


def c15(ctx):
    w = dict(apply=10, twice=1, sameloc=3, chain=4, clear=0.5, handles=0.3)
    run_dd(ctx, [(COMPS, hom_scripts(ctx, ctx.n(500, 12000), "comb", w, mk=Combi, steps=12), consts(HOMF), "comb"),
                 (COMPS, hom_scripts(ctx, ctx.n(200, 6000), "simpl", dict(apply=10, clear=0.5), mk=Simpl, steps=12), consts(HOMF), "simpl"),
                 (COMPS, tall_scripts(ctx, ctx.n(50, 1500), "tall", w, mk=Combi, steps=10), consts(HOMF), "tall"),
                 (COMPS, lambda: homs(ctx, simulated(ctx, 3), ctx.n(700, 12000), "comb"), consts(HOMF), "gen"),
                 (COMPS, net_scripts(ctx, ctx.n(60, 1500), "net"), consts(["hom"]), "net")])


class Rewrite(homgen.Hom):
    """C16: a term and its rewriting on the same diagrams"""
    def s_apply(self, depth=3):
        r = self.r
        t = r.choice([u for _, u in self.orders] + [self.tree] * 4)
        k = r.choice(["fix", "fix", "fix", "sum", "inter", "comp", "ite", "local"])
        self.narrow(t)
        h = self.pin(getattr(self, "t_" + k)(t, r.choice([1, 2, 2, 3]), r.random() < 0.7, False))
        self.wide()
        g = self.hfree()
        self.emit("hrw", g, self.oslot(t), h)
        self.put(g, t, lin=self.h[h]["lin"], sel=self.h[h]["sel"])
        self.pin(g)
        first, second = (h, g) if r.random() < 0.5 else (g, h)
        x, _ = self.apply(first)
        if r.random() < 0.3:
            self.emit("resetcache")
        self.apply(second, x)
        self.apply(g)
        self.unpin(g, h)

    def t_leaf(self, t, depth, lin, sel):
        # more functions on distinct variables: the material of saturation
        if self.r.random() < 0.5:
            fl = 2 if sel else self.r.choice([1, 1, 2, 3])
            h = self.hfree()
            self.emit("hfun", h, self.oslot(t), self.r.choice(leaves(t)), fl, self.table({1: self.r.choice(["any", "inc", "map"]), 2: "sel", 3: "shift"}[fl]))
            return self.put(h, t, sel=fl == 2)
        return homgen.Hom.t_leaf(self, t, depth, lin, sel)


def c16(ctx):
    w = dict(apply=10, sameloc=2, clear=0.5, handles=0.3)
    run_dd(ctx, [(COMPS, hom_scripts(ctx, ctx.n(500, 12000), "rw", w, mk=Rewrite, steps=10), consts(HOMF), "rw"),
                 (COMPS, tall_scripts(ctx, ctx.n(50, 1500), "tall", w, mk=Rewrite, steps=10), consts(HOMF), "tall"),
                 (COMPS, lambda: homs(ctx, simulated(ctx, 4), ctx.n(700, 12000), "rw"), consts(HOMF), "gen"),
                 (COMPS, net_scripts(ctx, ctx.n(60, 1500), "netrw"), consts(["hom"]), "net")])


class Twice(homgen.Hom):
    """C17: constructions repeated, after their first results died or not"""
    def run(self, n, weights, init):
        self.pinned = {}
        self.emit("init", *init)
        self.make_orders()
        mark = len(self.out)
        for _ in range(n):
            self.pinned = {}
            self.r.choice([self.s_twice, self.s_term, self.s_term, self.s_again, self.s_again, self.s_handles, self.s_consagain])()
        self.emit("audit")
        self.emit("shutdown")
        return self.out

    def s_term(self):
        t = self.r.choice([u for _, u in self.orders] + [self.tree])
        mark = len(self.out)
        self.term(t, self.r.choice([0, 1, 2]), True)
        self.last = self.out[mark:]

    def s_consagain(self):
        """insertions built from equal orders that are distinct objects, or parts of such orders"""
        r = self.r
        k, t = r.choice([(k, u) for k, u in self.orders if k < 8])
        self.emit("order", 10 + k, homgen.tree_text(t))
        a, b = k, 10 + k
        while len(t) > 1 and r.random() < 0.4:
            self.emit("nextorder", 20, a)
            self.emit("nextorder", 21, b)
            a, b, t = 20, 21, t[1:]
        while t[0][1] and r.random() < 0.4:
            self.emit("nestedorder", 22, a)
            self.emit("nestedorder", 23, b)
            a, b, t = 22, 23, t[0][1]
        h = self.hfree()
        self.emit("hid", h)
        self.put(h, None)
        self.pin(h)
        made = []
        if t[0][1]:
            w = self.pin_diagram(tree_sig(t[0][1]))
            args = ("hconss", w)
        else:
            args = ("hconsv", self.lst(self.vals()))
        for o in r.choice([(a, b), (b, a), (a, b, a), (a, a)]):
            g = self.hfree()
            self.emit(args[0], g, o, args[1], h)
            self.put(g, None)
            made.append(self.pin(g))
        self.unpin(h)
        for g in made:
            self.unpin(g)
            if r.random() < 0.6:
                self.emit("hdel", g)
                del self.h[g]
        if r.random() < 0.5:
            self.emit("delorder", 10 + k)

    def pin_diagram(self, sig):
        return self.cube(sig)

    def s_again(self):
        """repeat construction commands into other slots"""
        cs = [x for x in self.out if x.split()[0] in ("hid", "hconst", "hfun", "hind", "hlocal", "hcarrier", "hsum", "hinter", "hcomp", "hfix", "hite", "hrw")]
        if not cs:
            return
        c = self.r.choice(cs[-12:]).split()
        if c[0] == "hconst" and int(c[2]) not in self.slot:
            return
        refs = {"hlocal": [4], "hcarrier": [4], "hcomp": [2, 3], "hfix": [2], "hite": [2, 3, 4], "hrw": [3]}.get(c[0], [])
        ops = [int(c[i]) for i in refs]
        if c[0] in ("hsum", "hinter"):
            ops = [int(x) for x in c[4:]]
            if self.r.random() < 0.5:
                self.r.shuffle(ops)
                c[4:] = [str(x) for x in ops]
        orig = self.h.get(int(c[1]))
        if orig is None or any(o not in self.h for o in ops):
            return
        # the operands must still be what they were: only their trees matter for validity
        if c[0] in ("hsum", "hinter", "hcomp", "hfix", "hite", "hrw") and any(self.h[o]["tree"] is not orig["tree"] for o in ops):
            return
        if c[0] == "hite" and not self.h[ops[0]]["sel"]:
            return
        if c[0] in ("hlocal", "hcarrier"):
            t = next(u for k, u in self.orders if k == int(c[2]))
            i = int(c[3])
            s = next((v for j, v in t if j == i), None) if c[0] == "hlocal" else homgen.find_level(t, i)
            if s is None or self.h[ops[0]]["tree"] is not s or not self.h[ops[0]]["lin"]:
                return
        if c[0] in ("hfix", "hinter"):
            return
        for o in ops:
            self.pin(o)
        if self.r.random() < 0.3 and int(c[1]) not in self.pinned:
            d = int(c[1])                    # overwrite the original
        else:
            d = self.hfree()
        a = dict(orig)
        a["sel"] = all(self.h[o]["sel"] for o in ops) if c[0] in ("hsum", "hcomp", "hlocal", "hcarrier", "hrw") else False if c[0] == "hite" else a["sel"]
        if c[0] == "hite":
            a["sel"] = self.h[ops[1]]["sel"] and self.h[ops[2]]["sel"]
        a["lin"] = all(self.h[o]["lin"] for o in ops)
        c[1] = str(d)
        self.emit(*c)
        self.h[d] = a
        self.unpin(*ops)


class Alike(homgen.Hom):
    """C17: many homomorphisms that differ in one place only, alive at the same time in a small table"""
    def run(self, n, weights, init):
        r = self.r
        self.pinned = {}
        self.nhoms = 150
        self.emit("init", *init)
        self.make_orders()
        tabs = [self.table(k) for k in ("sel", "sel", "shift", "map", "any")]
        made = []                                       # (recipe, slot)
        for _ in range(n):
            t = r.choice([u for _, u in self.orders])
            mine = [s for s, a in self.h.items() if a["tree"] is t]
            sels = [s for s in mine if self.h[s]["sel"]]
            k = r.choices(["fun", "ind", "local", "sum", "inter", "comp", "ite", "fix", "vary"], [4, 3, 3, 3, 1, 3, 2, 1, 6])[0]
            o = self.oslot(t)
            rec = None
            if k == "vary" and made:
                rec, t = r.choice(made)
                rec = list(rec)
                rec = self.vary(rec, t, tabs)
            elif k == "fun":
                j = r.randrange(5)
                rec = ["hfun", o, r.choice(leaves(t)), {0: 2, 1: 2, 2: 3}.get(j, r.choice([0, 1])), tabs[j]]
            elif k == "ind":
                j = r.choice([0, 1, 3, 4])
                kind = 3 if j < 2 else r.choice([0, 1, 2, 4])
                fh = homgen.flat_here(t) or leaves(t)
                rec = ["hind", kind, r.choice(fh), r.choice(fh), tabs[j]]
            elif k == "local" and hier_here(t):
                i, s_ = r.choice(hier_here(t))
                g = [s for s, a in self.h.items() if a["tree"] is s_ and a["lin"]]
                if g:
                    rec = ["hlocal", o, i, r.choice(g)]
            elif k in ("sum", "inter") and len(mine) > 1:
                src = mine if k == "sum" else sels
                if len(src) > 1:
                    rec = ["h" + k, o] + r.sample(src, min(len(src), r.choice([2, 2, 3])))
            elif k == "comp" and len(mine) > 1:
                rec = ["hcomp"] + r.sample(mine, 2)
            elif k == "ite" and sels:
                rec = ["hite", r.choice(sels), r.choice(mine), r.choice(mine)]
            elif k == "fix" and sels:
                rec = ["hfix", r.choice(sels)]
            if rec is None:
                continue
            self.make(rec, t)
            if rec not in [m[0] for m in made]:
                made.append((rec, t))
            if r.random() < 0.03:
                s = r.choice(list(self.h))
                self.emit("hdel", s)
                del self.h[s]
                made = [m for m in made if s not in self.refs(m[0])]
        self.emit("audit")
        self.emit("shutdown")
        return self.out

    def refs(self, rec):
        return {"hlocal": rec[3:], "hsum": rec[2:], "hinter": rec[2:], "hcomp": rec[1:], "hite": rec[1:], "hfix": rec[1:]}.get(rec[0], [])

    def make(self, rec, t):
        ops = self.refs(rec)
        for x in ops:
            self.pin(x)
        h = self.hfree() if len(self.h) < self.nhoms else None
        if h is not None:
            if rec[0] in ("hsum", "hinter"):
                self.emit(rec[0], h, rec[1], self.lst(rec[2:]))
            else:
                self.emit(rec[0], h, *rec[1:])
            sel = {"hfun": lambda: rec[3] == 2, "hind": lambda: rec[1] == 3,
                   "hite": lambda: all(self.h[x]["sel"] for x in ops[1:])}.get(rec[0], lambda: all(self.h[x]["sel"] for x in ops))()
            self.put(h, t, sel=sel)
        self.unpin(*ops)

    def vary(self, rec, t, tabs):
        r = self.r
        like = lambda x: r.choice([s for s, a in self.h.items() if a["tree"] is self.h[x]["tree"] and (a["sel"] or not self.h[x]["sel"])])
        if r.random() < 0.2:
            return rec                                  # exactly the same
        if rec[0] == "hfun":
            if r.random() < 0.5:
                rec[2] = r.choice(leaves(t))
            elif rec[3] == 2:
                rec[4] = tabs[r.choice([0, 1])]
            else:
                rec[3], rec[4] = r.choice([(0, tabs[2]), (1, tabs[2]), (0, tabs[3]), (1, tabs[3]), (1, tabs[4]), (0, tabs[0])])
        elif rec[0] == "hind":
            fh = homgen.flat_here(t) or leaves(t)
            j = r.choice([1, 2, 3])
            rec[j] = r.choice([0, 1, 2, 4]) if j == 1 and rec[1] != 3 else r.choice(fh) if j > 1 else rec[j]
        elif rec[0] == "hlocal":
            same = [i for i, s_ in hier_here(t) if s_ is self.h[rec[3]]["tree"]]
            rec[3] = like(rec[3])
        elif rec[0] in ("hsum", "hinter"):
            j = r.randrange(2, len(rec))
            if r.random() < 0.3 and len(rec) > 3:
                del rec[j]
            elif r.random() < 0.4:
                x = rec[2:]
                r.shuffle(x)
                rec[2:] = x
            else:
                rec[j] = like(rec[j])
        elif rec[0] == "hcomp" and r.random() < 0.5:
            rec[1], rec[2] = rec[2], rec[1]
        elif rec[0] == "hite" and r.random() < 0.5:
            rec[2], rec[3] = rec[3], rec[2]
        else:
            j = r.randrange(1, len(rec))
            rec[j] = like(rec[j])
        return rec


def c17(ctx):
    foc = consts(["heq", "hsem", "hsel", "hnew", "handle"])
    sem = consts(["hom", "heq", "hsem", "hsel", "hnew"])
    run_dd(ctx, [(COMPS, hom_scripts(ctx, ctx.n(300, 7000), "tw", dict(twice=1), mk=Twice, steps=30, maxleaves=5), foc, "tw"),
                 (COMPS, hom_scripts(ctx, ctx.n(200, 6000), "simpl", dict(apply=10, clear=0.5, chain=2, sameloc=2), mk=Simpl, steps=12, maxleaves=5), sem, "simpl"),
                 (COMPS, hom_scripts(ctx, ctx.n(50, 1500), "alike", {}, mk=Alike, steps=110, maxleaves=4, tiny=0.8), foc, "alike"),
                 (COMPS, lambda: homs(ctx, simulated(ctx, 3), ctx.n(300, 6000), "tw"), foc, "gen")])


class Throwing(homgen.Hom):
    """C18: every call of user code, in turn, throws"""
    def s_points(self):
        r = self.r
        t = r.choice([u for _, u in self.orders] + [self.tree] * 2)
        h = self.pin(self.term(t, r.choice([0, 1, 2, 3]), r.random() < 0.8))
        if r.random() < 0.4 and self.h[h]["lin"]:
            g = self.hfree()
            self.emit("hrw", g, self.oslot(t), h)
            self.put(g, t, sel=self.h[h]["sel"])
            self.unpin(h)
            h = self.pin(g)
        x = self.diagram(t)
        o = self.oslot(t)
        reset = r.random() < 0.6
        points = list(range(1, r.choice([6, 10, 16])))
        if r.random() < 0.3:
            r.shuffle(points)
        for k in points:
            d = self.tmp_keep([x])
            if reset:
                self.emit("resetcache")
            self.emit("arm", k)
            self.emit("apply", d, h, o, x, r.randint(0, 1))
            self.emit("disarm")
            self.emit("del", d)
            if r.random() < 0.1:
                self.emit("audit")
        self.apply(h, x)
        self.apply(h)
        self.unpin(h)


def c18(ctx):
    foc = consts(["throw", "hom", "hnew", "handle", "canon", "eq", "reclaim", "leak", "init"])
    w = dict(points=8, bad=3, throw=3, fromorder=1, clear=1, audit=1, alg=1)
    run_dd(ctx, [(COMPS, hom_scripts(ctx, ctx.n(300, 7000), "thr", w, mk=Throwing, steps=8, tiny=0.6), foc, "thr")])


def c19(ctx):
    w = dict(ALGEBRA, audit=1)
    w[("tools",)] = 14
    small = alg_scripts(ctx, ctx.n(300, 7000), "alg", w)
    dots = hom_scripts(ctx, ctx.n(150, 3000), "dot", dict(dot=6, alg=4, apply=1))
    big = big_scripts(ctx, ctx.n(30, 700), "big", dict(fromorder_main=3, sum=2, alg=4, hier=3), hi=30)
    run_dd(ctx, [(COMPS, small, consts(["tools", "handle"]), "alg"), (COMPS, dots, consts(["tools", "handle"]), "dot"),
                 (COMPS, big, consts(["tools"], den=False), "big")] + wide_groups(ctx, ctx.n(1, 40), consts(["tools"], den=False), [("tools",)]))
