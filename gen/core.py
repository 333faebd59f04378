"""Episode builder: keeps only the *shapes* of the objects in the slots, never their values."""
import json
import random


OPK = ("sp", "dn", "coo", "lil", "bo", "bm")


class Ep:
    mixed = False
    coarse = False           # every operand is made of quarters, so that products of two are exact
    large = False
    top = False              # extents up to 300
    wide = False             # operands past single precision once multiplied; no product of three
    vast = False             # operands past single precision themselves; sums only

    def __init__(self, rng, eid, F=1, lim=5000, big=False):
        self.rng = rng
        self.F = F
        self.big = big
        self.lines = [{"ep": eid, "F": F, "lim": lim}]
        self.S = {}              # slot -> dict(k, t, n / r, c, ...)
        self.cnt = 0

    # ---------------------------------------------------------------- values
    def val(self, t="d", nz=False, small=False):
        """a scaled value"""
        r = self.rng
        if (self.wide or self.vast) and not small and r.random() < 0.7:
            return r.choice([1, -1]) * (r.randint(2500, 4500) * 2 + 1 if self.wide else 2**24 + 2 * r.randint(0, 2**20) + 1)
        while True:
            if small:
                v = r.randint(-3, 3)
            else:
                x = r.random()
                v = 0 if x < 0.1 else r.randint(-5, 5) if x < 0.75 else r.randint(-12, 12) if x < 0.96 else r.randint(-40, 40)
            if self.F == 1 or t == "i":
                v *= self.F
            else:
                v = v * self.F // 4 if r.random() < 0.7 else v * self.F   # quarters
            if v != 0 or not nz:
                return v

    def vals(self, n, t="d", **k):
        return [self.val(t, **k) for _ in range(n)]

    def pick(self, seq):
        return self.rng.choice(list(seq))

    def chance(self, p):
        return self.rng.random() < p

    def dim(self):
        r = self.rng
        if self.big == "huge":
            # a few large extents, past the thresholds at which library routines change their ways (insertion sort, blocking, small buffers)
            self.large = not self.large and r.random() < 0.6
            big = [r.randint(17, 40), r.randint(40, 140), r.randint(200, 300)] if self.top else [r.randint(17, 40), r.randint(33, 80), r.randint(65, 140)]
            return r.choice(big) if self.large else r.choice([0, 1, 2, 3, 4, 6])
        if self.big:
            return r.randint(10, 24)
        if self.wide or self.vast:
            return r.choice([0, 1, 2, 2, 3, 3, 4, 5])
        return r.choice([0, 1, 1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7])

    def size(self, small, lo, hi):
        """an extent: one of small, past lo in a big episode, far past it in a huge one"""
        r = self.rng
        return r.randint(hi, 2 * hi) if self.big == "huge" else r.randint(lo, hi) if self.big else r.choice(small)

    def pdim(self):
        return max(1, self.dim())

    # ---------------------------------------------------------------- slots
    def new(self, prefix):
        self.cnt += 1
        return "%s%d" % (prefix, self.cnt)

    def findall(self, pred):
        return [s for s in sorted(self.S) if pred(self.S[s])]

    def find(self, pred):
        """in programs that mix areas, operators that a solver or block operator relies on are left alone"""
        if not self.mixed:
            return self.findall(pred)
        return [s for s in sorted(self.S) if pred(self.S[s]) and not (self.S[s]["k"] in OPK and ("rows" in self.S[s] or self.held(s)))]

    def kinds(self, *ks, **eq):
        return self.find(lambda o: o["k"] in ks and all(o.get(k) == v for k, v in eq.items()))

    def pinned(self, s):
        return any(o["k"] == "view" and o.get("o") == s for o in self.S.values())

    def held(self, s):
        """a block operator points to it"""
        return any(o["k"] == "bo" and s in o["b"].values() or o["k"] in ("it", "ps") and s in o["refs"] for o in self.S.values())

    def drop_views(self, s):
        for w in [w for w, o in self.S.items() if o["k"] == "view" and o.get("o") == s]:
            self.emit("life", "del", x=w)
            del self.S[w]

    def drop(self, s):
        self.drop_views(s)
        self.emit("life", "del", x=s)
        del self.S[s]

    def limit(self, nmax=9):
        """keep the heap small"""
        while len(self.S) > nmax:
            c = [s for s in sorted(self.S) if not self.held(s)]
            if not c:
                return
            self.drop(self.pick(c))

    # ---------------------------------------------------------------- script
    def emit(self, m, op, **a):
        if not a:
            a = {"z": "z"}
        self.lines.append({"m": m, "op": op, "a": a})

    def mis(self, m, op, **a):
        self.lines.append({"m": m, "op": op, "a": a, "mis": 1})

    def end(self):
        self.lines.append({"m": "sys", "op": "end", "a": {"z": "z"}})

    def text(self):
        return "".join(json.dumps(x, separators=(",", ":")) + "\n" for x in self.lines)
