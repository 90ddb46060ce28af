"""Random scripts for drivers/dd.cc.  The generator only tracks the shape (variables and nesting) of
each slot, so as to combine operands that are, or deliberately are not, over the same variables; what
the results must be is decided by spec/TraceDD.tla from the log."""
import random

NV = 8                                   # values 0..7 of the configuration's table


def sizes(rng, tiny, zero=False):
    """init parameters: sddut diff inter sum arena homut homcache valut"""
    if not tiny:
        return [10000, 1000, 1000, 1000, 1 << 16, 1000, 1000, 1000]
    c = lambda: rng.choice([0, 1, 2, 2, 3, 4, 8] if zero else [2, 2, 3, 4, 8])    # without caches evaluation is exponential
    return [rng.choice([0, 1, 2, 4, 16]), c(), c(), c(), rng.choice([0, 1, 24, 64, 200, 512, 1024, 4096, 65536]),
            rng.choice([0, 1, 2, 8]), c(), rng.choice([0, 1, 2, 4, 16])]


class Shape:
    """levels: list of None (flat) or Shape; variables are numbered from the bottom."""
    def __init__(self, levels):
        self.levels = list(levels)

    @staticmethod
    def random(rng, depth, width, hier=0.35):
        n = rng.randint(1, width)
        return Shape([Shape.random(rng, depth - 1, max(1, width - 1), hier) if depth > 1 and rng.random() < hier else None
                      for _ in range(n)])

    def sig(self, frm=0):
        n = len(self.levels)
        return tuple((n - 1 - i,) if self.levels[i] is None else (n - 1 - i, self.levels[i].sig())
                     for i in range(frm, n))

    def leaves(self):
        return sum(1 if l is None else l.leaves() for l in self.levels)

    def all_shapes(self):
        out = [self]
        for l in self.levels:
            if l is not None:
                out += l.all_shapes()
        return out


ZERO = "zero"
ONE = ()


class DD:
    def __init__(self, rng, shapes, nslots=24, maxv=4, maxleaves=6):
        self.r, self.shapes, self.maxv = rng, shapes, maxv
        self.nslots = nslots
        self.out = []
        self.slot = {}                    # slot -> signature or ZERO
        self.base = 0
        self.gens = set()                 # open enumerations of paths

    def emit(self, *a):
        self.out.append(" ".join(str(x) for x in a))

    # ---- slots
    def free(self):
        c = [s for s in range(self.base, self.base + self.nslots) if s not in self.slot]
        if c and self.r.random() < 0.7:
            return self.r.choice(c)
        return self.r.randrange(self.base, self.base + self.nslots)     # overwrites

    def tmp(self):
        """a free slot, deleting one if necessary"""
        c = [s for s in range(self.base, self.base + self.nslots) if s not in self.slot]
        if not c:
            s = self.r.choice(list(self.slot))
            self.emit("del", s)
            del self.slot[s]
            return s
        return self.r.choice(c)

    def vals(self):
        k = self.r.choice([1, 1, 1, 2, 2, 3, 4])
        v = [self.r.randrange(self.maxv) for _ in range(k)]
        if self.r.random() < 0.03:
            v = []
        return v

    def lst(self, v):
        return "%d %s" % (len(v), " ".join(map(str, v))) if v else "0"

    def with_sig(self, sig):
        return [s for s, t in self.slot.items() if t == sig]

    # ---- building a diagram of signature sig
    def cube(self, sig):
        """a slot with a product (or an existing diagram) of signature sig"""
        c = self.with_sig(sig)
        if c and self.r.random() < 0.5:
            return self.r.choice(c)
        if sig == ONE:
            d = self.tmp()
            self.emit("one", d)
            self.slot[d] = ONE
            return d
        e = sig[0]
        s = self.cube(sig[1:])
        if len(e) == 1:
            d = self.tmp_keep([s])
            self.emit("flat", d, e[0], self.lst(self.vals()), s, self.r.randint(0, 1))
        else:
            hold = s
            w = self.cube(e[1])
            if hold not in self.slot or self.slot[hold] != sig[1:]:
                hold = self.cube_plain(sig[1:], [w])
            d = self.tmp_keep([w, hold])
            self.emit("hier", d, e[0], w, hold)
        self.slot[d] = sig
        return d

    def cube_plain(self, sig, keep):
        if sig == ONE:
            d = self.tmp_keep(keep)
            self.emit("one", d)
            self.slot[d] = ONE
            return d
        e = sig[0]
        s = self.cube_plain(sig[1:], keep)
        if len(e) == 1:
            d = self.tmp_keep(keep + [s])
            self.emit("flat", d, e[0], self.lst([self.r.randrange(self.maxv)]), s, 0)
        else:
            w = self.cube_plain(e[1], keep + [s])
            d = self.tmp_keep(keep + [s, w])
            self.emit("hier", d, e[0], w, s)
        self.slot[d] = sig
        return d

    def tmp_keep(self, keep):
        c = [s for s in range(self.base, self.base + self.nslots) if s not in self.slot]
        if c:
            return self.r.choice(c)
        s = self.r.choice([x for x in self.slot if x not in keep])
        self.emit("del", s)
        del self.slot[s]
        return s

    def top_sigs(self):
        return [s.sig(i) for sh in self.shapes for s in sh.all_shapes() for i in range(len(s.levels))]

    def pick(self):
        return self.r.choice(list(self.slot))

    def pick_compatible(self, a):
        t = self.slot[a]
        c = [s for s, u in self.slot.items() if u == t or u == ZERO or t == ZERO]
        return self.r.choice(c)

    def join(self, *ts):
        ts = [t for t in ts if t != ZERO]
        return ts[0] if ts else ZERO

    # ---- random operations
    def op_build(self):
        self.cube(self.r.choice(self.top_sigs()))

    def op_main(self):
        self.cube(self.r.choice(self.shapes).sig())

    def op_term(self):
        d = self.free()
        k = self.r.choice(["zero", "one", "default"])
        self.emit(k, d)
        self.slot[d] = ONE if k == "one" else ZERO

    def op_bin(self, incompatible=False):
        a = self.pick()
        b = self.pick() if incompatible else self.pick_compatible(a)
        k = self.r.choice("++&-")
        d = self.free()
        ok = self.slot[a] == self.slot[b] or ZERO in (self.slot[a], self.slot[b])
        self.emit("bin", k, d, a, b)
        if ok:
            self.slot[d] = self.join(self.slot[a], self.slot[b])
        else:
            self.emit("del", d)
            self.slot.pop(d, None)

    def op_inplace(self):
        a = self.pick()
        b = self.pick_compatible(a)
        self.emit("inplace", self.r.choice("++&-"), a, b)
        self.slot[a] = self.join(self.slot[a], self.slot[b])

    def op_nary(self, incompatible=False):
        a = self.pick()
        k = self.r.choice([0, 1, 2, 3, 3, 3, 4, 5, 7])
        l = [a] + [self.pick() if incompatible else self.pick_compatible(a) for _ in range(k)]
        t = [x for x in l if self.slot[x] != ZERO]
        if not incompatible and t:
            l = [x for x in l if self.slot[x] in (ZERO, self.slot[t[0]])]
        self.r.shuffle(l)
        if self.r.random() < 0.04:
            l = []
        op = self.r.choice("+++&")
        if op == "&" and not l:
            l = [a]
        d = self.free()
        self.emit("nary", op, d, self.lst(l), self.r.randint(0, 1))
        sigs = {self.slot[x] for x in l if self.slot[x] != ZERO}
        if len(sigs) <= 1:
            self.slot[d] = self.join(*[self.slot[x] for x in l]) if l else ZERO
        else:
            self.emit("del", d)
            self.slot.pop(d, None)

    def op_again(self):
        """repeat one of the last set operations"""
        c = [x for x in self.out[-30:] if x.startswith("bin ") or x.startswith("nary ")]
        if not c:
            return
        w = self.r.choice(c).split()
        ops = [int(x) for x in (w[3:5] if w[0] == "bin" else w[4:-1])]
        if any(o not in self.slot for o in ops):
            return
        d = self.tmp_keep(ops)
        w[2] = str(d)
        self.emit(*w)
        sigs = {self.slot[o] for o in ops if self.slot[o] != ZERO}
        if len(sigs) <= 1:
            self.slot[d] = self.join(*[self.slot[x] for x in ops]) if ops else ZERO
        else:
            self.emit("del", d)

    def op_copy(self):
        a = self.pick()
        d = a if self.r.random() < 0.1 else self.free()
        self.emit("copy", d, a)
        self.slot[d] = self.slot[a]

    def op_move(self):
        a = self.pick()
        d = self.free()
        if d == a:
            return
        self.emit("move", d, a)
        self.slot[d] = self.slot.pop(a)

    def op_swap(self):
        a, b = self.pick(), self.pick()
        self.emit("swap", a, b)
        self.slot[a], self.slot[b] = self.slot[b], self.slot[a]

    def op_del(self):
        if len(self.slot) > 3:
            a = self.pick()
            self.emit("del", a)
            del self.slot[a]

    def op_sub(self):
        a = self.pick()
        t = self.slot[a]
        if t == ZERO or t == ONE:
            return
        w = self.r.randint(0, 1)
        st = t[0][1] if (w == 1 and len(t[0]) == 2) else t[1:]
        # the target may denote zero: then nothing happens; use a fresh slot or the slot itself
        d = a if self.r.random() < 0.3 else self.free()
        self.emit("sub", d, a, self.r.randint(0, 5), w)
        if d == a:
            # unknown shape from here on when the diagram was empty: forget it
            self.emit("del", d)
            del self.slot[d]
        else:
            if d in self.slot:
                del self.slot[d]
            self.emit("del", d)

    def op_obs(self, kinds=("size", "paths", "tools")):
        a = self.pick()
        k = self.r.choice(kinds)
        if k == "paths":
            self.emit("paths", a, self.r.choice([-1, -1, 0, 1, 2, 5]))
        elif k == "paths2":
            self.emit("paths2", a, self.pick())
        else:
            self.emit(k, a)

    def op_gen(self):
        """enumerations of paths that stay open while other work goes on"""
        if len(self.gens) < 3 and self.r.random() < 0.5:
            g = self.r.choice([x for x in range(4) if x not in self.gens])
            a = self.pick()
            self.emit("gopen", g, a)
            self.gens.add(g)
            k = self.r.random()
            if k < 0.4 and len(self.slot) > 1:
                self.emit("del", a)
                del self.slot[a]
            if k < 0.6:
                self.emit("clearall")
        elif self.gens:
            g = self.r.choice(sorted(self.gens))
            if self.r.random() < 0.6:
                self.emit("gnext", g, self.r.choice([1, 1, 2, 4]))
            else:
                self.gclose(g)

    def gclose(self, g):
        if self.r.random() < 0.8:
            self.emit("gnext", g, 1000)
        self.emit("gclose", g)
        self.gens.remove(g)

    def op_clear(self):
        k = self.r.random()
        if k < 0.5:
            self.emit("clearall")
            if k < 0.25:
                self.emit("stats")
        else:
            self.emit("resetcache")

    def op_audit(self):
        self.emit("audit")

    def run(self, n, weights, init, relations=1):
        self.emit("init", *init)
        self.emit("relations", relations)
        for _ in range(3):
            self.op_main()
        names, w = zip(*weights.items())
        for _ in range(n):
            if not self.slot:
                self.op_main()
            k = self.r.choices(names, w)[0]
            if k == "binx":
                self.op_bin(True)
            elif k == "naryx":
                self.op_nary(True)
            elif isinstance(k, tuple):
                self.op_obs(k)
            else:
                getattr(self, "op_" + k)()
        for g in sorted(self.gens):
            self.gclose(g)
        self.emit("audit")
        self.emit("clearall")
        self.emit("stats")
        self.emit("shutdown")
        return self.out
