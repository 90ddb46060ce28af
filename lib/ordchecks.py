"""Checks of orders and ordering strategies: drivers/order.cc against TraceOrder."""
import os
from vf import ROOT
from memchecks import GEN, cst, thin, conform_all

ORDER = ["builder", "order", "duplicate", "flat", "text", "lookup", "contains", "equal"]
STRAT = ["builder", "group", "force", "mirror", "flat"]


def size(q):
    return sum(1 + size(x[1]) for x in q)


def ids(q):
    return [i for x in q for i in [x[0]] + ids(x[1])]


class Gen:
    """Tracks the trees so as to make well-formed calls only."""
    def __init__(self, r, big=False):
        self.r, self.b, self.o, self.s = r, {}, {}, ["start"]
        self.maxn = 40 if big else 12
        self.nids = r.choice([4, 8, 16, 60]) if not big else 60
        self.fresh = 0

    def emit(self, *a):
        self.s.append(" ".join(map(str, a)))

    def id(self):
        if self.r.random() < 0.75:            # mostly distinct, so that orders can be built
            self.fresh = (self.fresh + 1) % self.nids
            return self.fresh
        return self.r.randrange(self.nids)

    def build(self):
        r, b = self.r, self.b
        d, x = r.randrange(4), r.random()
        have = sorted(b)
        if not have or x < 0.12:
            k = r.choice([0, 1, 2, 3, 5])
            l = [self.id() for _ in range(k)]
            b[d] = [(i, ()) for i in l]
            self.emit("blist", d, r.randrange(2), k, *l)
        elif x < 0.2:
            i = self.id()
            b[d] = [(i, ())]
            self.emit("bone", d, r.randrange(2), i)
        elif x < 0.25:
            b[d] = []
            self.emit("bnew", d)
        elif x < 0.4:
            a, i = r.choice(have), self.id()
            if size(b[a]) < self.maxn:
                b[d] = [(i, tuple(b[a]))]
                self.emit("bnest", d, r.randrange(2), i, a)
        elif x < 0.55:
            d, i = r.choice(have), self.id()
            if size(b[d]) < self.maxn:
                b[d] = [(i, ())] + list(b[d])
                self.emit("bpush", d, i)
        elif x < 0.75:
            d, a, i = r.choice(have), r.choice(have), self.id()
            if size(b[a]) + size(b[d]) < self.maxn:
                b[d] = [(i, tuple(b[a]))] + list(b[d])
                self.emit("bpushn", d, i, a)
        elif x < 0.9:
            a, n = r.choice(have), r.choice(have)
            if size(b[a]) + size(b[n]) < self.maxn:
                b[a] = list(b[a]) + list(b[n])
                b[d] = list(b[a])
                self.emit("bcat", d, a, n)
        elif x < 0.95:
            a = r.choice(have)
            b[d] = list(b[a])
            self.emit("bcopy", d, a)
        else:
            d = r.choice(have)
            del b[d]
            self.emit("bdel", d)

    def order(self):
        r, have = self.r, sorted(self.b)
        if not have:
            return
        a, d = r.choice(have), r.randrange(5)
        q = self.b[a]
        user = [i for i in ids(q) if i >= 0]
        self.emit("onew", d, a)
        if len(set(user)) == len(user):
            self.o[d] = (list(q), list(q))     # (part, whole)

    def use(self):
        r, have = self.r, sorted(self.o)
        if not have:
            return
        a, d, x = r.choice(have), r.randrange(5), r.random()
        part, whole = self.o[a]
        if x < 0.15 and part:
            self.o[d] = (part[1:], whole)
            self.emit("onext", d, a)
        elif x < 0.35 and part:
            self.o[d] = (list(part[0][1]), whole)
            self.emit("onest", d, a)
        elif x < 0.4:
            self.o[d] = self.o[a]
            self.emit("ocopy", d, a)
        elif x < 0.45:
            del self.o[a]
            self.emit("odel", a)
        elif x < 0.6:
            self.emit("oobs", a)
        elif x < 0.8:
            self.emit("onode", a, r.choice(ids(whole)) if whole and r.random() < 0.7 else r.randrange(self.nids + 2))
        elif x < 0.9:
            self.emit("ocont", a, min(12, size(whole)))
        else:
            self.emit("ocmp")

    def strat(self):
        r, have = self.r, sorted(self.b)
        if not have:
            return
        a = r.choice(have)
        d = 4 + r.randrange(2)
        if r.random() < 0.4:
            self.emit("sflat", d, a)
            self.b[d] = [(i, ()) for i in leaves(self.b[a])]
        else:
            n = r.choice([1, 2, 2, 3, 3, 4, 7])
            self.emit("sgroup", d, n, a)
            if r.random() < 0.5:
                self.emit("onew", 7, d)
                q = ids(self.b[a])
                if len(set(q)) == len(q):
                    self.emit("oobs", 7)
                    if q:
                        self.emit("onode", 7, r.choice(q))
            if r.random() < 0.5:
                self.emit("sgroup", d, r.choice([2, 3]), d)
                self.emit("sflat", 6, d)
            self.b.pop(d, None)

    def force(self):
        r = self.r
        n = r.choice([1, 2, 3, 5, 8, 12, 12, 40]) if r.random() > 0.02 else r.choice([130, 270])
        vs = r.sample(range(60 if n < 60 else 400), n)
        if r.random() < 0.05:
            self.emit("hnew", 0, n + 1, *(vs + [vs[0]]))
            return
        es = []
        for _ in range(r.choice([0, 1, 2, 4, 8, 8, n])):
            k = r.choice([0, 1, 2, 2, 2, 3, 4, min(n, 10)])
            es.append((r.choice([1, 2, 2, 2, 3, 0]), [r.choice(vs) for _ in range(k)]))
        it = r.choice([0, 1, 2, 3, 10, 50])
        rev = r.randrange(2)
        for h in (0, 1, 2):
            self.emit("hnew", h, n, *vs)
            for w, l in es:
                self.emit("hedge", h, w, len(l), *l)
            self.emit("sforce", 7, h, it, rev if h == 0 else 1 - rev if h == 1 else r.randrange(2))
            if r.random() < 0.3:
                self.emit("sforce", 7, h, r.choice([1, 2, 5]), r.randrange(2))
        self.emit("onew", 6, 7)
        self.emit("oobs", 6)


def leaves(q):
    return [i for x in q for i in (leaves(x[1]) if x[1] else [x[0]])]


def scripts(ctx, n, tag, weights, steps):
    out = []
    for i in range(n):
        r = ctx.rng(tag, i)
        g = Gen(r, r.random() < 0.2)
        for _ in range(r.choice(steps)):
            getattr(g, r.choices(list(weights), list(weights.values()))[0])()
        out.append(g.s)
    return out


def large(ctx, n):
    """orders with many identifiers, or deeply nested"""
    out = []
    for i in range(n):
        r = ctx.rng("large", i)
        s, k = ["start"], 0
        emit = lambda *a: s.append(" ".join(map(str, a)))
        all_ids = list(range(1, 400))
        r.shuffle(all_ids)
        take = lambda m: [all_ids.pop() for _ in range(m)]
        emit("bnew", 0)
        total, mode = 0, r.choice(["wide", "deep", "mixed"])
        while total < {"wide": 120, "deep": 40, "mixed": 70}[mode]:
            x = r.random()
            if mode == "wide" and x < 0.6 or x < 0.2:
                m = r.choice([5, 20, 40]) if mode == "wide" else 2
                l = take(m)
                emit("blist", 1, 1, m, *l)
                emit("bcat", 0, *((0, 1) if r.random() < 0.5 else (1, 0)))
                emit("bnew", 1)
                total += m
            elif x < 0.7 and total:
                emit("bnest", 0, r.randrange(2), take(1)[0], 0)
                total += 1
            else:
                emit("bpush", 0, take(1)[0])
                total += 1
        emit("bobs", 0)
        emit("onew", 0, 0)
        emit("bdel", 0)
        emit("oobs", 0)
        used = [x for x in range(1, 400) if x not in all_ids]
        for x in r.sample(used, 6) + [all_ids[0]]:
            emit("onode", 0, x)
        emit("ocont", 0, 12)
        emit("ocopy", 1, 0)
        for _ in range(r.choice([1, 3, 6])):
            emit(r.choice(["onext", "onest"]) if _ else "onext", 1, 1)
            break
        emit("odel", 0)
        emit("oobs", 1)
        emit("ocmp")
        out.append(s)
    return out


def vast(ctx, n):
    """more than 256 identifiers (at most 200 of them in a level)"""
    out = []
    for k in range(n):
        r = ctx.rng("vast", k)
        s = ["start"]
        emit = lambda *a: s.append(" ".join(map(str, a)))
        names = list(range(1, 700))
        r.shuffle(names)
        take = lambda m: [names.pop() for _ in range(m)]
        a, b, c = r.choice([(190, 60, 40), (30, 190, 60), (2, 150, 140), (90, 90, 90)])
        emit("blist", 0, 1, a, *take(a))
        emit("blist", 1, 1, b, *take(b))
        emit("blist", 2, 1, c, *take(c))
        h = take(3)
        emit("bnest", 3, 0, h[0], r.choice([0, 1, 2]))       # the three lists one below or after the other
        emit("bdel", 3)
        emit("bpushn", 1, h[0], 2)
        emit("bnest", 3, 1, h[1], 1)
        emit("bcat", 0, 0, 3)
        emit("bobs", 0)
        emit("onew", 0, 0)
        for x in (0, 1, 2, 3):
            emit("bdel", x)
        emit("oobs", 0)
        used = [x for x in range(1, 700) if x not in names and x != h[2]]
        for x in r.sample(used, 40) + h + names[:2]:
            emit("onode", 0, x)
        emit("ocont", 0, len(used))
        emit("ocopy", 1, 0)
        for _ in range(a):
            emit("onext", 1, 1)
        emit("onest", 2, 1)
        emit("oobs", 2)
        emit("ocmp")
        # every event of the walk carries all orders: keep the last ones only
        out.append(s)
    return out


def flat_words(q):
    """a tree as the words of jorder"""
    out = []
    for i, sub in q:
        out += [i] + ([-1] + flat_words(sub) + [-2] if sub else [])
    return out


def json_scripts(ctx, n):
    out = []
    for k in range(n):
        r = ctx.rng("json", k)
        s = ["start"]
        emit = lambda *a: s.append(" ".join(map(str, a)))
        depth = r.choice([1, 2, 3, 5])
        for _ in range(r.choice([2, 4, 6])):
            names = list(range(r.choice([12, 12, 40, 400])))
            r.shuffle(names)

            def tree(dep, top=False):
                q = []
                for _ in range(r.choice([0, 1, 2, 3, 8] if top else [1, 1, 2, 2, 3])):
                    if names:
                        i = names.pop()
                        q.append((i, tree(dep - 1) if dep > 1 and r.random() < 0.5 else []))
                return q

            def arrays(dep):
                w = []
                for _ in range(r.choice([0, 1, 1, 2, 3])):
                    if dep > 1 and r.random() < 0.5:
                        w += [-1] + arrays(dep - 1) + [-2]
                    elif names:
                        w.append(names.pop())
                return w

            if r.random() < 0.55:
                q = tree(depth, True)
                w = flat_words(q)
                emit("jorder", 0, len(w), *w)
                while True:
                    emit("jcycle", 0, 0)
                    if r.random() < 0.4:
                        emit("jbuilt", 1, 0)
                        emit("jcycle", 1, 1)
                    if not q or r.random() < 0.6:
                        break
                    sub = bool(q[0][1]) and r.random() < 0.6
                    q = q[0][1] if sub else q[1:]
                    emit("jpart", 0, 0, int(sub))
            else:
                w = arrays(depth + 1)
                emit("jload", 0, r.randrange(24), len(w), *w)
                emit("jbuilt", 1, 0)
                emit("jcycle", 1, 1)
                if r.random() < 0.15:
                    emit("jnone", 2)
        out.append(s)
    return out


def refused(ctx, n):
    """a text where integers are expected (second configuration only)"""
    out = []
    for k in range(n):
        r = ctx.rng("refused", k)
        w = list(range(r.choice([0, 1, 3])))
        w.insert(r.randrange(len(w) + 1), -3)
        if r.random() < 0.5:
            w = [-1] + w + [-2]
        out.append(["start", "jload 0 %d %d %s" % (r.randrange(24), len(w), " ".join(map(str, w))), "jload 0 0 2 1 2", "jbuilt 0 0", "jcycle 0 0"])
    return out


def c22(ctx):
    g = ctx.pool.submit(ctx.generate, "Orders", GEN % ("Reload", "", cst(IdSet="{0, 1}", Slots="{1, 2}", MaxNodes=ctx.n(5, 6), MaxLen=ctx.n(4, 6))), "Orders")
    shim = ("-DJSON", "-I" + os.path.join(ROOT, "drivers", "shim"))
    bins = [f.result() for f in [ctx.pool.submit(ctx.build, "order", c, "-O0", shim, True, "json%d" % c) for c in (0, 1)]]
    # the builders of the model that have no duplicates: as orders, dumped and loaded
    gen = []
    for s in thin(ctx, g.result(), ctx.n(1500, 20000), "g"):
        t = []
        for x in s:
            w = x.split()
            if w[0] == "oobs":
                t += ["jbuilt %s %s" % (w[1], w[1]), "jcycle 9 %s" % w[1], "jbuilt 9 9", "jcycle 9 9"]
            elif w[0][0] == "b" and w[0] != "bobs" or w[0] == "start":
                t.append(x)
        gen.append(t)
    js = []
    rnd = json_scripts(ctx, ctx.n(700, 15000))
    for c in (0, 1):
        js += conform_all(ctx, bins[c], gen[c::2] + rnd[c::2] + (refused(ctx, ctx.n(20, 200)) if c else []), "TraceOrder", ["dump", "load"], "json%d" % c, per=2500)
    ctx.parallel(js)


INV = "Grouping Flattening Positions FlatAgree"


def jobs(ctx, focus, models, gens, rnd):
    bins = [f.result() for f in [ctx.pool.submit(ctx.build, "order", c) for c in (0, 1)]]
    js = []
    for tag, ss in (("gen", gens), ("rnd", rnd)):
        for c in (0, 1):
            js += conform_all(ctx, bins[c], ss[c::2], "TraceOrder", focus, "%s%d" % (tag, c), per=2500)
    ctx.log("%d + %d scripts" % (len(gens), len(rnd)))
    ctx.parallel(js)


def c12(ctx):
    g = ctx.pool.submit(ctx.generate, "Orders", GEN % (INV, "", cst(IdSet="{0, 1, 2}", Slots="{1, 2}", MaxNodes=ctx.n(4, 5), MaxLen=ctx.n(4, 6))), "Orders")
    rnd = scripts(ctx, ctx.n(500, 12000), "ord", dict(build=10, order=4, use=12), [20, 50, 100]) + large(ctx, ctx.n(12, 600)) + vast(ctx, ctx.n(2, 20))
    jobs(ctx, ORDER, None, thin(ctx, g.result(), ctx.n(2000, 30000), "g"), rnd)


def c20(ctx):
    g = ctx.pool.submit(ctx.generate, "Orders", GEN % (INV, "", cst(IdSet="{0, 1}", Slots="{1, 2}", MaxNodes=ctx.n(5, 6), MaxLen=ctx.n(4, 6))), "Orders")
    rnd = scripts(ctx, ctx.n(350, 8000), "str", dict(build=8, strat=6), [15, 40]) + scripts(ctx, ctx.n(350, 8000), "force", dict(force=1), [1, 3])
    jobs(ctx, STRAT, None, thin(ctx, g.result(), ctx.n(1500, 20000), "g"), rnd)
