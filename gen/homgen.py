"""Random homomorphism scripts for drivers/dd.cc.

Domain respected by the generator (the assumptions of C14-C18): user code is truthful (a selector only
filters, a shifter is injective), a fixpoint is taken of a sum with the identity or of a selector, a
non-linear intersection is not put under a local or a fixpoint, local targets a hierarchical identifier
of the level its order starts at."""
import random
from ddgen import DD, Shape, NV, ZERO, ONE


def tree_of(shape, counter):
    t = []
    for l in shape.levels:
        i = counter[0]
        counter[0] += 1
        t.append((i, tree_of(l, counter) if l is not None else []))
    return t


def relabel(r, t):
    """identifiers that follow no order"""
    ids = [i for i in all_ids(t) if i >= 0]
    new = r.sample(range(max(ids, default=0) + 20), len(ids))
    m = dict(zip(ids, new))

    def go(u):
        return [(m.get(i, i), go(s)) for i, s in u]
    return go(t)


def all_ids(t):
    return [i for i, _ in t] + [x for _, s in t for x in all_ids(s)]


def tree_text(t):
    return "%d %s" % (len(t), " ".join("%d %s" % (i, tree_text(s)) for i, s in t)) if t else "0"


def tree_sig(t):
    n = len(t)
    return tuple((n - 1 - k,) if not s else (n - 1 - k, tree_sig(s)) for k, (i, s) in enumerate(t))


def leaves(t):
    return [i for i, s in t if not s] + [x for i, s in t for x in leaves(s)]


def flat_here(t):
    return [i for i, s in t if not s]


def hier_here(t):
    return [(i, s) for i, s in t if s]


def find_level(t, x):
    """subtree list containing x"""
    for i, s in t:
        if i == x:
            return t
        r = find_level(s, x)
        if r is not None:
            return r
    return None


class Hom(DD):
    def __init__(self, rng, tree, maxv=3, nslots=16, nhoms=60, hbase=0):
        DD.__init__(self, rng, [], nslots=nslots, maxv=maxv)
        self.tree = tree
        self.h = {}                       # hom slot -> dict(tree, lin, sel, infl)
        self.nhoms = nhoms
        self.hbase = hbase
        self.orders = []                  # (slot, tree)
        self.reuse = 0.35
        self.consts = True
        self.focus = None                 # identifiers on which the terms of this step act, most of the time
        self.fid = 0
        self.thin = False                 # few assignments over many variables
        self.near = 0.6                   # how often terms meet

    def vals(self):
        if self.thin:
            return [self.r.randrange(self.maxv)] if self.r.random() < 0.93 else self.r.sample(range(self.maxv), min(2, self.maxv))
        return DD.vals(self)

    # ---- terms that meet: all on the same few variables
    def narrow(self, t, p=None):
        self.fid += 1
        self.focus = None
        if self.r.random() < max(self.near if self.near == 1 else 0, p or self.near):
            l = leaves(t)
            k = self.r.randrange(len(l))
            self.focus = {l[k]} | ({self.r.choice(l)} if self.r.random() < 0.5 else set())

    def wide(self):
        self.fid += 1
        self.focus = None

    def aim(self, c):
        """one of the identifiers c, in focus if possible"""
        if self.focus and self.r.random() < 0.9:
            f = [x for x in c if x in self.focus]
            if f:
                return self.r.choice(f)
        return self.r.choice(c)

    def aim_hier(self, c):
        if self.focus and self.r.random() < 0.9:
            f = [(i, s) for i, s in c if self.focus & set(leaves(s))]
            if f:
                return self.r.choice(f)
        return self.r.choice(c)

    # ---- orders: the whole tree in slot 0, each nested tree as an order of its own
    def make_orders(self):
        todo = [self.tree]
        self.orders = []
        while todo:
            t = todo.pop(0)
            k = len(self.orders)
            self.emit("order", k, tree_text(t))
            self.orders.append((k, t))
            todo += [s for _, s in hier_here(t)]

    def oslot(self, t):
        return next(k for k, u in self.orders if u is t)

    def hfree(self):
        c = [s for s in range(self.hbase, self.hbase + self.nhoms) if s not in self.h]
        if c:
            return self.r.choice(c)
        c = [s for s in self.h if s not in self.pinned]
        s = self.r.choice(c)
        self.emit("hdel", s)
        del self.h[s]
        return s

    def diagram(self, t):
        """a random diagram over tree t, of a few cubes"""
        sig = tree_sig(t)
        s = self.cube(sig)
        for _ in range(self.r.choice([0, 1, 2, 3, 4])):
            self.hold = s
            b = self.cube_avoid(sig, s)
            d = self.tmp_keep([s, b])
            self.emit("bin", "+", d, s, b)
            self.slot[d] = sig
            s = d
        return s

    def cube_avoid(self, sig, keep):
        save = self.slot.pop(keep)        # protect the slot from being recycled or overwritten
        taken = self.reserved = keep
        n = self.nslots
        try:
            # tmp() would pick 'keep' as free: mark it with a signature nobody asks for
            self.slot[keep] = ("reserved",)
            while True:
                b = self.cube(sig)
                if keep in self.slot:
                    break
            return b
        finally:
            self.slot[keep] = save

    def tmp(self):
        c = [s for s in range(self.base, self.base + self.nslots) if s not in self.slot]
        if not c:
            s = self.r.choice([x for x in self.slot if self.slot[x] != ("reserved",)])
            self.emit("del", s)
            del self.slot[s]
            return s
        return self.r.choice(c)

    def tmp_keep(self, keep):
        c = [s for s in range(self.base, self.base + self.nslots) if s not in self.slot]
        if c:
            return self.r.choice(c)
        s = self.r.choice([x for x in self.slot if x not in keep and self.slot[x] != ("reserved",)])
        self.emit("del", s)
        del self.slot[s]
        return s

    # ---- tables
    def table(self, kind):
        r, m = self.r, self.maxv
        if kind == "sel":
            keep = [r.random() < 0.65 for _ in range(NV)]
            t = [[v] if keep[v] else [] for v in range(NV)]
        elif kind == "shift":
            p = list(range(m))
            r.shuffle(p)
            t = [[p[v]] if v < m else [v] for v in range(NV)]
        elif kind == "map":
            t = [[r.randrange(m)] for _ in range(NV)]
        elif kind == "inc":
            t = [[min(v + 1, m - 1)] for v in range(NV)]
        else:
            t = [sorted({r.randrange(m) for _ in range(r.choice([1, 1, 1, 2, 2] if self.focus else [0, 1, 1, 2]))}) for _ in range(NV)]
        return " ".join(self.lst(x) for x in t)

    def put(self, slot, t, lin=True, sel=False):
        self.h[slot] = dict(tree=t, lin=lin, sel=sel, fid=self.fid)
        return slot

    # ---- terms over tree t (returns a hom slot)
    def term(self, t, depth, lin=True, sel=False):
        c = [s for s, a in self.h.items() if a["tree"] is t and (a["lin"] or not lin) and (a["sel"] or not sel) and (not self.focus or a.get("fid") == self.fid)]
        if c and self.r.random() < self.reuse:
            return self.r.choice(c)
        if depth <= 0:
            return self.leaf(t, sel)
        kinds = ["leaf", "sum", "comp", "inter", "local", "ite", "fix", "rw"]
        w = [2, 3, 3, 2, 4 if hier_here(t) else 0, 1.2, 1.2, 1]
        k = self.r.choices(kinds, w)[0]
        return getattr(self, "t_" + k)(t, depth, lin, sel)

    def pin(self, s):
        self.pinned[s] = self.pinned.get(s, 0) + 1
        return s

    def unpin(self, *ss):
        for s in ss:
            self.pinned[s] -= 1
            if not self.pinned[s]:
                del self.pinned[s]

    def leaf(self, t, sel):
        return self.t_leaf(t, 0, True, sel)

    def t_leaf(self, t, depth, lin, sel):
        r = self.r
        o = self.oslot(t)
        k = r.choices(["id", "fun", "ind", "const"], [0.5, 5, 2.5, 0.6 if (self.consts and not sel) else 0])[0]
        if k == "id":
            h = self.hfree()
            self.emit("hid", h)
            return self.put(h, t, sel=True)
        if k == "const":
            d = self.diagram(t)
            h = self.hfree()
            self.emit("hconst", h, d)
            return self.put(h, t)
        if k == "fun":
            fl = 2 if sel else r.choice([0, 1, 1, 2, 2, 3])
            tab = self.table({0: r.choice(["any", "map", "inc"]), 1: r.choice(["any", "map", "inc", "any"]), 2: "sel", 3: "shift"}[fl])
            h = self.hfree()
            self.emit("hfun", h, o, self.aim(leaves(t)), fl, tab)
            return self.put(h, t, sel=fl == 2)
        kind = 3 if sel else r.choice([0, 0, 1, 2, 3, 4])
        fh = flat_here(t)
        x = self.aim(fh) if fh else r.choice(leaves(t))
        y = self.aim(fh) if fh else x
        h = self.hfree()
        self.emit("hind", h, kind, x, y, self.table("sel" if kind == 3 else r.choice(["any", "map", "inc"])))
        return self.put(h, t, sel=kind == 3)

    def operands(self, t, depth, lin, sel, n):
        ops = []
        for _ in range(n):
            ops.append(self.pin(self.term(t, depth - 1, lin, sel)))
        return ops

    def t_sum(self, t, depth, lin, sel):
        ops = self.operands(t, depth, lin, sel, self.r.choice([1, 2, 2, 3, 3, 4]))
        if self.r.random() < 0.3:
            h = self.hfree()
            self.emit("hid", h)
            ops.append(self.pin(self.put(h, t, sel=True)))
        h = self.hfree()
        self.emit("hsum", h, self.oslot(t), self.lst(ops))
        a = dict(lin=all(self.h[x]["lin"] for x in ops), sel=all(self.h[x]["sel"] for x in ops))
        self.unpin(*ops)
        return self.put(h, t, **a)

    def t_inter(self, t, depth, lin, sel):
        s = sel or lin or self.r.random() < 0.5       # of selectors, or non-linear
        ops = self.operands(t, depth, lin, s, self.r.choice([1, 2, 2, 3]))
        h = self.hfree()
        self.emit("hinter", h, self.oslot(t), self.lst(ops))
        issel = all(self.h[x]["sel"] for x in ops)
        a = dict(lin=issel or (len(set(ops)) == 1 and self.h[ops[0]]["lin"]), sel=issel)
        self.unpin(*ops)
        return self.put(h, t, **a)

    def t_comp(self, t, depth, lin, sel):
        a, b = self.operands(t, depth, lin, sel, 2)
        h = self.hfree()
        self.emit("hcomp", h, a, b)
        at = dict(lin=self.h[a]["lin"] and self.h[b]["lin"], sel=self.h[a]["sel"] and self.h[b]["sel"])
        self.unpin(a, b)
        return self.put(h, t, **at)

    def t_local(self, t, depth, lin, sel):
        hh = hier_here(t)
        if not hh:
            return self.t_leaf(t, depth, lin, sel)
        i, s = self.aim_hier(hh)
        g = self.pin(self.term(s, depth - 1, True, sel))
        h = self.hfree()
        if self.r.random() < 0.25:
            self.emit("hcarrier", h, self.oslot(t), self.r.choice([x for x, _ in s]), g)
        else:
            self.emit("hlocal", h, self.oslot(t), i, g)
        a = dict(sel=self.h[g]["sel"])
        self.unpin(g)
        return self.put(h, t, **a)

    def t_ite(self, t, depth, lin, sel):
        p = self.pin(self.term(t, depth - 1, True, True))
        a, b = self.operands(t, depth, lin, sel, 2)
        h = self.hfree()
        self.emit("hite", h, p, a, b)
        at = dict(lin=self.h[a]["lin"] and self.h[b]["lin"], sel=self.h[a]["sel"] and self.h[b]["sel"])
        self.unpin(p, a, b)
        return self.put(h, t, **at)

    def t_fix(self, t, depth, lin, sel):
        if sel or self.r.random() < 0.25:
            g = self.pin(self.term(t, depth - 1, True, True))
            issel = True
        else:
            ops = self.operands(t, depth, True, False, self.r.choice([1, 2, 2, 3]))
            i = self.hfree()
            self.emit("hid", i)
            ops.append(self.pin(self.put(i, t, sel=True)))
            self.r.shuffle(ops)
            g = self.hfree()
            self.emit("hsum", g, self.oslot(t), self.lst(ops))
            self.put(g, t, sel=all(self.h[x]["sel"] for x in ops))
            self.unpin(*ops)
            issel = self.h[g]["sel"]
            self.pin(g)
        h = self.hfree()
        self.emit("hfix", h, g)
        self.unpin(g)
        return self.put(h, t, sel=issel)

    def t_rw(self, t, depth, lin, sel):
        g = self.pin(self.term(t, depth - 1, lin, sel))
        h = self.hfree()
        self.emit("hrw", h, self.oslot(t), g)
        a = dict(lin=self.h[g]["lin"], sel=self.h[g]["sel"])
        self.unpin(g)
        return self.put(h, t, **a)

    # ---- steps of a script
    def apply(self, h, x=None):
        t = self.h[h]["tree"]
        self.pin(h)
        if x is None:
            x = self.diagram(t)
        d = self.tmp_keep([x])
        self.emit("apply", d, h, self.oslot(t), x, self.r.randint(0, 1))
        self.slot[d] = tree_sig(t)
        self.unpin(h)
        return x, d

    def s_apply(self, depth=3):
        t = self.r.choice([u for _, u in self.orders] + [self.tree] * 2)
        self.narrow(t, 0.4)
        h = self.pin(self.term(t, self.r.randint(0, depth), lin=self.r.random() < 0.8))
        self.wide()
        for _ in range(self.r.choice([1, 1, 2])):
            x, d = self.apply(h)
        if self.r.random() < 0.5:                            # the same through rewriting
            g = self.hfree()
            self.emit("hrw", g, self.oslot(t), h)
            self.put(g, t, lin=self.h[h]["lin"], sel=self.h[h]["sel"])
            self.apply(g, x)
            if self.r.random() < 0.3:
                self.emit("resetcache")
                self.apply(h, x)
        self.unpin(h)

    def s_sameloc(self, rw=0.5):
        """sums, intersections and compositions of several locals on the same hierarchical variable (and
        a few other operands), as they are and rewritten"""
        r = self.r
        ts = [u for _, u in self.orders if hier_here(u)]
        if not ts:
            return
        t = r.choice(ts + [self.tree] if self.tree in ts else ts)
        o = self.oslot(t)
        i, s = r.choice(hier_here(t))
        k = r.choice(["hsum", "hinter", "hinter", "hinter", "hcomp"])
        ops = []
        for _ in range(2 if k == "hcomp" else r.choice([2, 2, 3, 4])):
            g = self.pin(self.term(s, r.choice([0, 0, 1]), True, r.random() < 0.35))
            h = self.hfree()
            self.emit("hlocal", h, o, i, g)
            self.put(h, t, sel=self.h[g]["sel"])
            self.unpin(g)
            ops.append(self.pin(h))
        if k != "hcomp":
            for _ in range(r.choice([0, 0, 1, 2])):
                ops.append(self.pin(self.term(t, 0)))
            r.shuffle(ops)
        h = self.hfree()
        sel = all(self.h[x]["sel"] for x in ops)
        if k == "hcomp":
            self.emit(k, h, ops[0], ops[1])
        else:
            self.emit(k, h, o, self.lst(ops))
        self.put(h, t, lin=k != "hinter" or sel, sel=sel)
        self.unpin(*ops)
        self.pin(h)
        x, _ = self.apply(h)
        if r.random() < rw:
            g = self.hfree()
            self.emit("hrw", g, o, h)
            self.put(g, t, lin=self.h[h]["lin"], sel=sel)
            self.pin(g)
            self.apply(g, x)
            self.apply(g)
            self.unpin(g)
        else:
            self.apply(h)
        self.unpin(h)

    def s_chain(self):
        """compositions of three or four operands that meet, associated in several ways"""
        r = self.r
        t = r.choice([u for _, u in self.orders] + [self.tree] * 3)
        self.narrow(t, 0.9)
        if self.focus:
            self.focus = set(list(self.focus)[:1]) if r.random() < 0.6 else self.focus
        ops = []
        for _ in range(r.choice([3, 3, 4])):
            ops.append(self.pin(self.term(t, r.choice([0, 0, 1, 1, 2]))))
        self.wide()

        def build(l):
            if len(l) == 1:
                return self.pin(l[0])
            j = r.randint(1, len(l) - 1)
            a, b = build(l[:j]), build(l[j:])
            h = self.hfree()
            self.emit("hcomp", h, a, b)
            self.put(h, t, lin=self.h[a]["lin"] and self.h[b]["lin"], sel=self.h[a]["sel"] and self.h[b]["sel"])
            self.unpin(a, b)
            return self.pin(h)
        x = None
        for _ in range(2):
            h = build(ops)
            x, _ = self.apply(h, x)
            self.unpin(h)
        self.unpin(*ops)

    def s_cons(self):
        """insertion of a variable in front of a diagram over the rest of the order"""
        t = self.r.choice([u for _, u in self.orders])
        if len(t) < 2 and self.r.random() < 0.5:
            return
        o = self.oslot(t)
        n = 20
        self.emit("nextorder", n, o)
        i, s = t[0]
        sig = tree_sig(t)
        x = self.cube(sig[1:])
        self.slot_pin = x
        # the inner homomorphism: identity, a constant or a function on a later variable
        h = self.hfree()
        c = [y for y, z in t[1:] if not z]
        k = self.r.random()
        if k < 0.4 or not c:
            self.emit("hid", h)
        else:
            fl = self.r.choice([1, 2, 3])
            self.emit("hfun", h, o, self.r.choice(c), fl, self.table({1: "any", 2: "sel", 3: "shift"}[fl]))
        self.put(h, None)
        self.pin(h)
        g = self.hfree()
        if s:
            keep = self.slot[x]
            self.slot[x] = ("reserved",)
            w = self.cube(tree_sig(s))
            self.slot[x] = keep
            self.emit("hconss", g, o, w, h)
        else:
            w = None
            self.emit("hconsv", g, o, self.lst(self.vals()), h)
        d = self.tmp_keep([x] + ([w] if w is not None else []))
        self.emit("apply", d, g, n, x, self.r.randint(0, 1))
        self.slot[d] = sig
        self.unpin(h)
        self.emit("hdel", g)
        self.emit("hdel", h)
        del self.h[h]

    def s_twice(self):
        """the same term built again, operands permuted and nested differently"""
        t = self.r.choice([u for _, u in self.orders])
        o = self.oslot(t)
        n = self.r.choice([2, 3, 4])
        k = self.r.choice(["hsum", "hsum", "hinter"])
        ops = [self.pin(self.term(t, self.r.randint(0, 1), True, k == "hinter")) for _ in range(n)]
        res = []
        for _ in range(self.r.choice([2, 3])):
            l = list(ops)
            self.r.shuffle(l)
            if self.r.random() < 0.4:
                l.append(self.r.choice(ops))
            if self.r.random() < 0.5 and len(l) > 2:
                j = self.r.randint(1, len(l) - 1)
                g = self.hfree()
                self.emit(k, g, o, self.lst(l[j:]))
                self.put(g, t, sel=all(self.h[x]["sel"] for x in l[j:]))
                self.pin(g)
                l = l[:j] + [g]
                res.append(g)
            h = self.hfree()
            self.emit(k, h, o, self.lst(l))
            self.put(h, t, sel=all(self.h[x]["sel"] for x in l))
            self.pin(h)
            res.append(h)
        x, _ = self.apply(res[0])
        if len(res) > 1:
            self.apply(res[-1])
        self.unpin(*(ops + res))

    def s_handles(self):
        if not self.h:
            return
        a = self.r.choice(list(self.h))
        k = self.r.random()
        if k < 0.4:
            d = a if self.r.random() < 0.2 else self.r.randrange(self.hbase, self.hbase + self.nhoms)
            self.emit("hcopy", d, a)
            self.h[d] = dict(self.h[a])
        elif k < 0.6:
            d = self.r.randrange(self.hbase, self.hbase + self.nhoms)
            if d != a:
                self.emit("hmove", d, a)
                self.h[d] = self.h.pop(a)
        else:
            self.emit("hdel", a)
            del self.h[a]

    def s_bad(self):
        """refused constructions"""
        t = self.tree
        o = self.oslot(t)
        k = self.r.random()
        if k < 0.25:
            self.emit("hsum", self.r.randrange(300, 310), o, "0")
        elif k < 0.4:
            self.emit("hinter", self.r.randrange(300, 310), o, "0")
        elif k < 0.6:
            self.emit("hfun", self.r.randrange(300, 310), o, 90, 1, self.table("any"))
        elif k < 0.75:
            g = self.term(t, 0)
            self.emit(self.r.choice(["hlocal", "hcarrier"]), self.r.randrange(300, 310), o, 91, g)
        else:
            p = self.hfree()
            self.emit("hfun", p, o, self.r.choice(leaves(t)), self.r.choice([0, 1, 3]), self.table("shift"))
            self.put(p, t)
            self.pin(p)
            a = self.pin(self.term(t, 0))
            b = self.pin(self.term(t, 0))
            self.emit("hite", self.r.randrange(300, 310), p, a, b)
            self.unpin(p, a, b)

    def s_throw(self):
        """an exception out of user code at some call, then the same application again"""
        t = self.r.choice([u for _, u in self.orders] + [self.tree])
        h = self.pin(self.term(t, 2))
        x = self.diagram(t)
        for _ in range(self.r.choice([1, 2, 3])):
            self.emit("arm", self.r.choice([1, 1, 2, 3, 4, 6, 9]))
            d = self.tmp_keep([x])
            self.emit("apply", d, h, self.oslot(t), x, self.r.randint(0, 1))
            self.emit("disarm")
            self.emit("del", d)
            if self.r.random() < 0.4:
                self.emit("audit")
        self.apply(h, x)
        self.unpin(h)

    def s_fromorder(self):
        t = self.r.choice([u for _, u in self.orders] + [self.tree])
        init = [(i, self.vals()) for i in leaves(t)]
        d = self.free()
        if self.r.random() < 0.15:
            self.emit("arm", self.r.randint(1, 3))
            self.emit("fromorder", d, self.oslot(t), len(init), " ".join("%d %s" % (i, self.lst(v)) for i, v in init))
            self.emit("disarm")
            self.emit("del", d)
            self.slot.pop(d, None)
        else:
            self.emit("fromorder", d, self.oslot(t), len(init), " ".join("%d %s" % (i, self.lst(v)) for i, v in init))
            self.slot[d] = tree_sig(t)

    def s_clear(self):
        self.op_clear()

    def s_audit(self):
        self.emit("audit")

    def s_alg(self):
        if not self.slot:
            self.diagram(self.tree)
        self.r.choice([self.op_bin, self.op_inplace, self.op_nary, self.op_copy])()

    def s_dot(self):
        t = self.r.choice([u for _, u in self.orders])
        x = self.diagram(t)
        self.emit("dot", x, self.oslot(t))
        self.emit("tools", x)

    def run(self, n, weights, init):
        self.pinned = {}
        self.emit("init", *init)
        self.make_orders()
        names, w = zip(*weights.items())
        for _ in range(n):
            k = self.r.choices(names, w)[0]
            self.pinned = {}
            getattr(self, "s_" + k)()
        self.emit("audit")
        for s in sorted(self.h):
            self.emit("hdel", s)
        self.emit("clearall")
        self.emit("stats")
        self.emit("shutdown")
        return self.out
