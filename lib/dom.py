"""Numeric abstract domain: linear forms over bounded symbols, interval boxes,
a small polyhedral store decided by Fourier-Motzkin elimination, and value
partitioning.  No solver, no execution of the analysed program.

A linear form is the tuple (c, ((sym, coef), ...)) with syms sorted; it denotes
a mathematical integer.  Registers of the analysed program hold a form that is
congruent to their content modulo 2^bits.
"""
import numpy as np

INF = 1 << 70


class Imprecise(Exception):
    """The abstraction cannot decide something it has to decide."""


class NeedSplit(Exception):
    """Raised by a decision that the current abstract cell does not settle.
    alts: list of refinement lists; each refinement is ('box',sym,lo,hi) or
    ('ge0',lin)."""

    def __init__(self, alts, why=''):
        Exception.__init__(self, why)
        self.alts = alts
        self.why = why


class Sym:
    __slots__ = ('id', 'name', 'kind', 'lo', 'hi', 'defn', 'key')


class Table:
    """Symbol table, one per analysed entry point."""

    def __init__(self):
        self.syms = []
        self.index = {}

    def new(self, name, kind, lo, hi, defn=None, key=None):
        if key is not None and key in self.index:
            return self.index[key]
        s = Sym()
        s.id = len(self.syms)
        s.name = name
        s.kind = kind
        s.lo = lo
        s.hi = hi
        s.defn = defn
        s.key = key
        self.syms.append(s)
        if key is not None:
            self.index[key] = s.id
        return s.id


def const(c):
    return (c, ())


def var(s, k=1):
    return (0, ((s, k),))


def is_const(a):
    return not a[1]


def add(a, b):
    if not b[1]:
        return (a[0] + b[0], a[1]) if b[0] else a
    if not a[1]:
        return (a[0] + b[0], b[1]) if a[0] else b
    d = dict(a[1])
    for s, k in b[1]:
        n = d.get(s, 0) + k
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return (a[0] + b[0], tuple(sorted(d.items())))


def mulc(a, k):
    if k == 0:
        return (0, ())
    if k == 1:
        return a
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def addc(a, c):
    return (a[0] + c, a[1])


def sub(a, b):
    if a == b:
        return (0, ())
    return add(a, mulc(b, -1))


def neg(a):
    return mulc(a, -1)


def gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


class Num:
    """Numeric part of an abstract state."""
    __slots__ = ('T', 'box', 'cons', 'infeasible_cache')

    def __init__(self, T):
        self.T = T
        self.box = {}
        self.cons = ()

    def copy(self):
        n = Num.__new__(Num)
        n.T = self.T
        n.box = dict(self.box)
        n.cons = self.cons
        return n

    # ---- ranges
    def srange(self, s):
        b = self.box.get(s)
        sy = self.T.syms[s]
        if sy.defn is None:
            return b if b is not None else (sy.lo, sy.hi)
        lo, hi = self.defrange(sy)
        if b is not None:
            lo = max(lo, b[0])
            hi = min(hi, b[1])
        return lo, hi

    def rng(self, a):
        lo, hi = self.rng0(a)
        if len(a[1]) > 1:
            syms = self.T.syms
            for s, k in a[1]:
                d = syms[s].defn
                if d is not None and d[0] == 'floor' and k % d[2] == 0:
                    m = -k // d[2]          # a = m*(E - d*floor(E/d)) + rest
                    rest = sub(a, sub(mulc(d[1], m), ((0, ((s, m * d[2]),)))))
                    if len(rest[1]) < len(a[1]) - 1 or (len(rest[1]) < len(a[1]) and not any(t == s for t, _ in rest[1])):
                        l, h = self.rng(rest)
                        if m > 0:
                            h += m * (d[2] - 1)
                        else:
                            l += m * (d[2] - 1)
                        lo = max(lo, l)
                        hi = min(hi, h)
                        if lo > hi:
                            return self.rng0(a)
        return lo, hi

    def rng0(self, a):
        lo = hi = a[0]
        for s, k in a[1]:
            l, h = self.srange(s)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    def defrange(self, sy):
        d = sy.defn
        op = d[0]
        if op == 'floor':
            l, h = self.rng(d[1])
            return max(sy.lo, l // d[2]), min(sy.hi, h // d[2])
        if op == 'tab':
            # (tab, name, values(np array), index lin)
            l, h = self.rng(d[3])
            n = len(d[2])
            l = max(l, 0)
            h = min(h, n - 1)
            if l > h:
                return sy.lo, sy.hi
            seg = d[2][l:h + 1]
            return int(seg.min()), int(seg.max())
        return sy.lo, sy.hi

    # ---- vector evaluation (finite partitioning)
    def base_syms(self, a, acc=None):
        if acc is None:
            acc = set()
        for s, _ in a[1]:
            sy = self.T.syms[s]
            if sy.defn is None:
                acc.add(s)
            else:
                for x in sy.defn:
                    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
                        self.base_syms(x, acc)
        return acc

    def evalvec(self, a, env):
        r = np.int64(a[0]) if -(1 << 62) < a[0] < (1 << 62) else None
        if r is None or any(abs(k) >= 1 << 62 for _, k in a[1]):
            raise Imprecise('wide constant in vector evaluation')
        for s, k in a[1]:
            r = r + k * self.evalsym(s, env)
        return r

    def evalsym(self, s, env):
        if s in env:
            return env[s]
        sy = self.T.syms[s]
        d = sy.defn
        if d is None:
            l, h = self.srange(s)
            if l == h:
                return np.int64(l)
            raise Imprecise('free symbol ' + sy.name)
        op = d[0]
        if op == 'floor':
            v = self.evalvec(d[1], env) // d[2]
        elif op == 'tab':
            i = self.evalvec(d[3], env)
            v = d[2][np.clip(i, 0, len(d[2]) - 1)]
        elif op == 'and':
            v = self.evalvec(d[1], env) & self.evalvec(d[2], env)
        elif op == 'or':
            v = self.evalvec(d[1], env) | self.evalvec(d[2], env)
        elif op == 'xor':
            v = self.evalvec(d[1], env) ^ self.evalvec(d[2], env)
        elif op == 'mul':
            v = self.evalvec(d[1], env) * self.evalvec(d[2], env)
        elif op == 'shl':
            v = self.evalvec(d[1], env) << self.evalvec(d[2], env)
        elif op == 'lshr':
            v = self.evalvec(d[1], env) >> self.evalvec(d[2], env)
        elif op in ('umod', 'smod') and d[2] > 1 << 62:
            raise Imprecise('wide modulus in vector evaluation')
        elif op == 'umod':
            v = self.evalvec(d[1], env) % d[2]
        elif op == 'smod':
            v = ((self.evalvec(d[1], env) + d[2] // 2) % d[2]) - d[2] // 2
        else:
            raise Imprecise('cannot evaluate ' + str(op))
        env[s] = v
        return v

    # ---- refinement
    def refine(self, ref):
        """apply one refinement; False when the cell becomes empty"""
        if ref[0] == 'box':
            _, s, lo, hi = ref
            l, h = self.srange(s)
            lo = max(lo, l)
            hi = min(hi, h)
            if lo > hi:
                return False
            self.box[s] = (lo, hi)
            if not self.propagate_def(s):
                return False
            if (lo, hi) == (l, h):
                return True
            if not self.recheck(s):
                return False
            k = self.T.syms[s].kind
            if (k == 'len' or k == 'in') and any(t == s for c in self.cons for t, _ in c[1]):
                return not self.unsat((-lo, ((s, 1),)))
            return True
        lin = ref[1]
        l, h = self.rng(lin)
        if l >= 0:
            return True
        if h < 0:
            return False
        t = lin[1]
        if len(t) == 1:
            s, k = t[0]
            if k > 0:
                b = -((lin[0]) // k)      # s >= ceil(-c/k)
                return self.refine(('box', s, b, INF))
            b = lin[0] // (-k)            # s <= floor(c/-k)
            return self.refine(('box', s, -INF, b))
        g = 0
        for _, k in t:
            g = gcd(g, k)
        if g > 1:
            lin = (lin[0] // g, tuple((s, k // g) for s, k in t))
        if lin not in self.cons:
            self.cons = self.cons + (lin,)
        # interval propagation through the new constraint
        for s, k in lin[1]:
            rest = (lin[0], tuple(x for x in lin[1] if x[0] != s))
            rl, rh = self.rng(rest)
            l, h = self.srange(s)
            if k > 0:
                b = -(rh // k)
                if b > l:
                    if b > h:
                        return False
                    self.box[s] = (b, h)
                    if self.isfloor(s) and not self.pdef(s):
                        return False
            else:
                b = rh // (-k)
                if b < h:
                    if b < l:
                        return False
                    self.box[s] = (l, b)
                    if self.isfloor(s) and not self.pdef(s):
                        return False
        return not self.unsat(lin)

    depth = 0

    def pdef(self, s):
        if Num.depth >= 3:
            return True
        Num.depth += 1
        try:
            return self.propagate_def(s)
        finally:
            Num.depth -= 1

    def isfloor(self, s):
        d = self.T.syms[s].defn
        return d is not None and d[0] == 'floor'

    def recheck(self, s):
        """a box bound of s changed: push it through the constraints that mention s"""
        pend = [s]
        n = 0
        while pend and n < 40:
            s = pend.pop()
            for lin in self.cons:
                if not any(t == s for t, _ in lin[1]):
                    continue
                n += 1
                if self.rng(lin)[1] < 0:
                    return False
                for t, k in lin[1]:
                    if t == s:
                        continue
                    rest = (lin[0], tuple(x for x in lin[1] if x[0] != t))
                    rh = self.rng(rest)[1]
                    l, h = self.srange(t)
                    if k > 0:
                        b = -(rh // k)
                        if b > h:
                            return False
                        if b > l:
                            self.box[t] = (b, h)
                            pend.append(t)
                            if self.isfloor(t) and not self.pdef(t):
                                return False
                    else:
                        b = rh // (-k)
                        if b < l:
                            return False
                        if b < h:
                            self.box[t] = (l, b)
                            pend.append(t)
                            if self.isfloor(t) and not self.pdef(t):
                                return False
        return True

    def propagate_def(self, s):
        sy = self.T.syms[s]
        d = sy.defn
        if d is None:
            return True
        lo, hi = self.box[s]
        if d[0] == 'floor':
            E, n = d[1], d[2]
            if not self.refine(('ge0', addc(E, -lo * n))):
                return False
            return self.refine(('ge0', addc(neg(E), hi * n + n - 1)))
        if d[0] in ('tab', 'and', 'or', 'xor', 'umod', 'smod', 'lshr', 'mul', 'shl'):
            bs = self.base_syms((0, ((s, 1),)))
            if len(bs) == 1:
                x = next(iter(bs))
                l, h = self.srange(x)
                if h - l <= 1 << 21:
                    xs = np.arange(l, h + 1, dtype=np.int64)
                    v = self.evalsym(s, {x: xs})
                    m = (v >= lo) & (v <= hi)
                    ix = np.nonzero(m)[0]
                    if len(ix) == 0:
                        return False
                    return self.refine(('box', x, l + int(ix[0]), l + int(ix[-1])))
        return True

    # ---- polyhedral entailment
    def unsat(self, extra=None, budget=4000):
        """True when cons (+extra) has no rational solution in the box (sound)."""
        sys_ = list(self.cons)
        if extra is not None and extra not in sys_:
            sys_.append(extra)
        if not sys_:
            return False
        # defining inequalities of the floor terms
        done = set()
        i = 0
        while i < len(sys_):
            for s, _ in sys_[i][1]:
                if s in done:
                    continue
                done.add(s)
                sy = self.T.syms[s]
                if sy.defn is not None and sy.defn[0] == 'floor':
                    E, n = sy.defn[1], sy.defn[2]
                    sys_.append(add(E, mulc(var(s), -n)))
                    sys_.append(addc(sub(mulc(var(s), n), E), n - 1))
            i += 1
        # keep the connected component of `extra`
        if extra is not None:
            rel = {s for s, _ in extra[1]}
            keep = []
            pend = sys_
            changed = True
            while changed:
                changed = False
                np_ = []
                for c in pend:
                    if any(s in rel for s, _ in c[1]):
                        keep.append(c)
                        for s, _ in c[1]:
                            if s not in rel:
                                rel.add(s)
                                changed = True
                    else:
                        np_.append(c)
                pend = np_
            sys_ = keep
        vs = set()
        for c in sys_:
            for s, _ in c[1]:
                vs.add(s)
        for s in vs:
            l, h = self.srange(s)
            if l > -INF:
                sys_.append((-l, ((s, 1),)))
            if h < INF:
                sys_.append((h, ((s, -1),)))
        cur = {}
        for c in sys_:
            cur[c] = 1
        cur = list(cur)
        while vs:
            # choose variable with the smallest product
            best = None
            for s in vs:
                p = n = 0
                for c in cur:
                    for t, k in c[1]:
                        if t == s:
                            if k > 0:
                                p += 1
                            else:
                                n += 1
                sc = p * n - p - n
                if best is None or sc < best[0]:
                    best = (sc, s)
            s = best[1]
            vs.discard(s)
            pos, ng, rest = [], [], []
            for c in cur:
                k = 0
                for t, kk in c[1]:
                    if t == s:
                        k = kk
                if k > 0:
                    pos.append((c, k))
                elif k < 0:
                    ng.append((c, -k))
                else:
                    rest.append(c)
            seen = set(rest)
            for a, ka in pos:
                for b, kb in ng:
                    n = add(mulc(a, kb), mulc(b, ka))
                    if not n[1]:
                        if n[0] < 0:
                            return True
                        continue
                    g = 0
                    for _, k in n[1]:
                        g = gcd(g, k)
                    if g > 1:
                        n = (n[0] // g, tuple((x, k // g) for x, k in n[1]))
                    if n not in seen:
                        seen.add(n)
                        rest.append(n)
            # prune dominated: same terms keep the smallest constant
            bt = {}
            for c in rest:
                if not c[1]:
                    if c[0] < 0:
                        return True
                    continue
                o = bt.get(c[1])
                if o is None or c[0] < o:
                    bt[c[1]] = c[0]
            cur = [(c0, t) for t, c0 in bt.items()]
            if len(cur) > budget:
                return False
        return any((not c[1]) and c[0] < 0 for c in cur)

    def implied(self, lin):
        """lin >= 0 in every point of the cell?  (sound, may say False)"""
        l, h = self.rng(lin)
        if l >= 0:
            return True
        if h < 0:
            return False
        return self.unsat(addc(neg(lin), -1))

    def feasible(self):
        """False when some opaque term's box admits no assignment of its unit symbols"""
        for s in list(self.box):
            sy = self.T.syms[s]
            if sy.defn is None or sy.defn[0] == 'floor':
                continue
            bs = sorted(self.base_syms((0, ((s, 1),))))
            if not bs or any(self.T.syms[b].kind != 'unit' for b in bs):
                continue
            n = 1
            for b in bs:
                l, h = self.srange(b)
                n *= h - l + 1
            if n > 1 << 23:
                continue
            try:
                grid = np.meshgrid(*[np.arange(self.srange(b)[0], self.srange(b)[1] + 1, dtype=np.int64) for b in bs], indexing='ij')
                v = self.evalsym(s, {b: g.ravel() for b, g in zip(bs, grid)})
            except Imprecise:
                continue
            l, h = self.box[s]
            if not np.any((v >= l) & (v <= h)):
                return False
        return True

    # ---- decision with partitioning
    def ge0(self, lin):
        l, h = self.rng(lin)
        if l >= 0:
            return True
        if h < 0:
            return False
        if len(lin[1]) > 1 or (self.cons and lin[1] and self.isfloor(lin[1][0][0])):
            if self.cons or any(self.T.syms[s].defn for s, _ in lin[1]):
                if self.unsat(addc(neg(lin), -1)):
                    return True
                if self.unsat(lin):
                    return False
        if len(lin[1]) > 1 or (lin[1] and self.T.syms[lin[1][0][0]].defn is not None):
            g = self.grid(lin)
            if isinstance(g, bool):
                return g
            if g is not None:
                raise NeedSplit(g)
        alts = self.split_on(lin)
        if isinstance(alts, bool):
            return alts
        raise NeedSplit(alts)

    def grid(self, lin):
        """decide lin >= 0 by tabulating it over its (few, finite) unit symbols;
        returns a bool, split alternatives, or None when not tabulable"""
        T = self.T
        bs = self.base_syms(lin)
        free = []
        n = 1
        for s in sorted(bs):
            if T.syms[s].kind != 'unit':
                return None
            l, h = self.srange(s)
            if l != h:
                free.append(s)
                n *= h - l + 1
                if n > 1 << 16:
                    return None
        if len(free) < 2:
            return None
        l, h = self.rng(lin)
        if l < -(1 << 60) or h > 1 << 60:
            return None
        ax = [np.arange(self.srange(s)[0], self.srange(s)[1] + 1, dtype=np.int64) for s in free]
        grid = np.meshgrid(*ax, indexing='ij')
        try:
            v = self.evalvec(lin, dict(zip(free, grid)))
        except Imprecise:
            return None
        m = np.broadcast_to(v, grid[0].shape) >= 0
        ok = self.gridmask(free, grid)
        if ok is not None:
            if not ok.any():
                return None
            if m[ok].all():
                return True
            if not m[ok].any():
                return False
        if m.all():
            return True
        if not m.any():
            return False
        best = None
        for i, s in enumerate(free):
            rows = np.moveaxis(m, i, 0).reshape(len(ax[i]), -1)
            ch = np.nonzero((rows[1:] != rows[:-1]).any(axis=1))[0]
            if best is None or 0 < len(ch) < best[0]:
                if len(ch):
                    best = (len(ch), s, int(ax[i][0]), [0] + [int(c) + 1 for c in ch] + [len(ax[i])])
        _, s, b, cuts = best
        return [[('box', s, b + cuts[i], b + cuts[i + 1] - 1)] for i in range(len(cuts) - 1)]

    def gridmask(self, free, grid):
        """points of the grid that the stored constraints allow (None: all)"""
        fs = set(free)
        m = None
        for c in self.cons:
            if any(s in fs for s, _ in c[1]) and self.base_syms(c) <= fs:
                try:
                    v = self.evalvec(c, dict(zip(free, grid))) >= 0
                except Imprecise:
                    continue
                m = v if m is None else m & v
        return None if m is None else np.broadcast_to(m, grid[0].shape)

    def split_on(self, lin):
        T = self.T
        t = lin[1]
        if len(t) == 1:
            s, k = t[0]
            sy = T.syms[s]
            if sy.defn is None or sy.defn[0] == 'floor':
                return [[('ge0', lin)], [('ge0', addc(neg(lin), -1))]]
        bs = self.base_syms(lin)
        fin = all(T.syms[s].kind == 'unit' for s in bs)
        if not fin:
            return [[('ge0', lin)], [('ge0', addc(neg(lin), -1))]]
        free = [s for s in bs if self.srange(s)[0] != self.srange(s)[1]]
        if len(free) == 1:
            x = free[0]
            l, h = self.srange(x)
            if h - l <= 1 << 21:
                xs = np.arange(l, h + 1, dtype=np.int64)
                try:
                    v = self.evalvec(lin, {x: xs})
                except Imprecise:
                    return [[('ge0', lin)], [('ge0', addc(neg(lin), -1))]]
                if np.ndim(v) == 0:
                    v = np.full(len(xs), v)
                m = v >= 0
                ch = np.nonzero(m[1:] != m[:-1])[0]
                cuts = [0] + [int(i) + 1 for i in ch] + [len(xs)]
                if len(cuts) == 2:
                    return bool(m[0])
                if len(cuts) > 700:
                    raise Imprecise('too many value classes')
                return [[('box', x, l + cuts[i], l + cuts[i + 1] - 1)] for i in range(len(cuts) - 1)]
        # several finite symbols: threshold the dominating one if linear
        best = None
        for s, k in t:
            sy = T.syms[s]
            l, h = self.srange(s)
            if l == h:
                continue
            w = abs(k) * (h - l)
            # prefer the largest stride (positional weight)
            key = (abs(k), w)
            if best is None or key > best[0]:
                best = (key, s, k)
        if best is None:
            raise Imprecise('nothing to split')
        _, s, k = best
        rest = (lin[0], tuple(x for x in t if x[0] != s))
        rl, rh = self.rng(rest)
        # k*s + rest >= 0 certain iff k*s + rl >= 0 ; impossible iff k*s + rh < 0
        l, h = self.srange(s)
        pts = []
        if k > 0:
            p1 = -(rl // k)       # s >= p1 : true
            p2 = -(rh // k)       # s <  p2 : false
            pts = sorted({p for p in (p1, p2) if l < p <= h})
        else:
            p1 = rl // (-k) + 1   # s < p1 : true
            p2 = rh // (-k) + 1   # s >= p2 : false
            pts = sorted({p for p in (p1, p2) if l < p <= h})
        if not pts:
            # bisect
            sy = T.syms[s]
            m = (l + h + 1) // 2
            pts = [m]
        ed = [l] + pts + [h + 1]
        return [[('box', s, ed[i], ed[i + 1] - 1)] for i in range(len(ed) - 1)]

    def eq0(self, lin):
        l, h = self.rng(lin)
        if l == h == 0:
            return True
        if l > 0 or h < 0:
            return False
        if not lin[1]:
            return lin[0] == 0
        g = 0
        for _, k in lin[1]:
            g = gcd(g, k)
        if lin[0] % g:
            return False
        if g > 1:
            lin = (lin[0] // g, tuple((s, k // g) for s, k in lin[1]))
        a = self.ge0(lin)
        if not a:
            return False
        b = self.ge0(neg(lin))
        return b

    # ---- modular normalisation
    def norm(self, a, bits, signed):
        """a representative in the type's value range (may split)"""
        m = 1 << bits
        base = -(m >> 1) if signed else 0
        l, h = self.rng(a)
        if l >= base and h < base + m:
            return a
        # reduce constants/coefs modulo 2^bits (to the symmetric range)
        half = m >> 1

        def red(c):
            c %= m
            return c - m if c >= half else c
        b = (red(a[0]), tuple((s, red(k)) for s, k in a[1] if red(k)))
        l, h = self.rng(b)
        k1 = (l - base) // m
        k2 = (h - base) // m
        if k1 == k2:
            return addc(b, -k1 * m)
        if self.cons:
            if self.implied(addc(b, -base)) and self.implied(addc(neg(b), base + m - 1)):
                return b
        if k2 - k1 <= 2:
            kk = k1
            for k in range(k1 + 1, k2 + 1):
                if not self.ge0(addc(b, -(base + k * m))):
                    break
                kk = k
            return addc(b, -kk * m)
        op = 'smod' if signed else 'umod'
        s = self.T.new('%s%d' % (op, bits), 'num', base, base + m - 1, (op, b, m), (op, b, m))
        return var(s)

    # ---- canonical floor / modulo
    def floordiv(self, a, d):
        """floor(a/d), d>0"""
        if d == 1:
            return a
        c = a[0]
        q = (c // d, tuple((s, k // d) for s, k in a[1] if k % d == 0))
        r = (c % d, tuple((s, k) for s, k in a[1] if k % d))
        if not r[1]:
            return q
        l, h = self.rng(r)
        if l // d == h // d:
            return addc(q, l // d)
        if d & (d - 1) == 0:
            # drop low-order parts that can never carry
            while True:
                g = d >> 1
                done = True
                while g > 1:
                    hi_t = tuple((s, k) for s, k in r[1] if k % g == 0)
                    lo_t = tuple((s, k) for s, k in r[1] if k % g)
                    lo = (r[0] % g, lo_t)
                    ll, lh = self.rng(lo)
                    if hi_t and ll // g == lh // g:
                        hi = (r[0] - r[0] % g + (ll // g) * g, hi_t)
                        r = (hi[0] // g, tuple((s, k // g) for s, k in hi[1]))
                        d //= g
                        done = False
                        break
                    g >>= 1
                if done or d == 1:
                    break
            if d == 1:
                return add(q, r)
            c = r[0]
            if c >= d or c < 0:
                q = addc(q, c // d)
                r = (c % d, r[1])
            # multiples again
            m = tuple((s, k // d) for s, k in r[1] if k % d == 0)
            if m:
                q = add(q, (0, m))
                r = (r[0], tuple((s, k) for s, k in r[1] if k % d))
            if not r[1]:
                return q
            l, h = self.rng(r)
            if l // d == h // d:
                return addc(q, l // d)
            # reduce single-symbol coefficient sign/size
        # common factor with exact constant part
        g = d
        for _, k in r[1]:
            g = gcd(g, k)
        if g > 1:
            r = (r[0] // g, tuple((s, k // g) for s, k in r[1]))
            d //= g
            if d == 1:
                return add(q, r)
        # nested floor: floor(floor(E/n)/d) = floor(E/(n d)) for a lone floor symbol
        if len(r[1]) == 1 and r[1][0][1] == 1:
            sy = self.T.syms[r[1][0][0]]
            if sy.defn is not None and sy.defn[0] == 'floor':
                inner = addc(sy.defn[1], r[0] * sy.defn[2])
                return add(q, self.floordiv(inner, sy.defn[2] * d))
        key = ('floor', r, d)
        s = self.T.new('fl%d' % d, 'num', -INF, INF, ('floor', r, d), key)
        return add(q, var(s))

    def mod2(self, a, d):
        """a mod d (0..d-1)"""
        c = a[0] % d
        r = (c, tuple((s, k) for s, k in a[1] if k % d))
        f = self.floordiv(r, d)
        return sub(r, mulc(f, d))

    def renorm(self, a):
        """re-canonicalise in the current (finer) cell"""
        r = (a[0], ())
        for s, k in a[1]:
            sy = self.T.syms[s]
            d = sy.defn
            l, h = self.srange(s)
            if l == h:
                r = addc(r, k * l)
                continue
            if d is None:
                r = add(r, ((0, ((s, k),))))
                continue
            if d[0] == 'floor':
                E = self.renorm(d[1])
                r = add(r, mulc(self.floordiv(E, d[2]), k))
            elif d[0] in ('umod', 'smod'):
                E = self.renorm(d[1])
                base = -(d[2] >> 1) if d[0] == 'smod' else 0
                l, h = self.rng(E)
                k1, k2 = (l - base) // d[2], (h - base) // d[2]
                if k1 == k2:
                    r = add(r, mulc(addc(E, -k1 * d[2]), k))
                else:
                    r = add(r, (0, ((s, k),)))
            elif d[0] == 'tab':
                E = self.renorm(d[3])
                if not E[1] and 0 <= E[0] < len(d[2]):
                    r = addc(r, k * int(d[2][E[0]]))
                else:
                    r = add(r, (0, ((s, k),)))
            elif d[0] in ('and', 'or', 'xor', 'mul', 'shl', 'lshr'):
                A, B = self.renorm(d[1]), self.renorm(d[2])
                r = add(r, mulc(self.binop(d[0], A, B, d[3]), k))
            else:
                r = add(r, (0, ((s, k),)))
        return r

    def opaque(self, op, a, b, bits):
        if op in ('and', 'or', 'xor', 'mul') and b < a:
            a, b = b, a
        key = (op, a, b, bits)
        hi = (1 << bits) - 1
        if op in ('and', 'or', 'xor'):
            ra, rb = self.rng(a), self.rng(b)
            if ra[0] >= 0 and rb[0] >= 0:
                if op == 'and':
                    hi = min(ra[1], rb[1])
                else:
                    hi = (1 << max(ra[1].bit_length(), rb[1].bit_length())) - 1
        s = self.T.new(op, 'num', 0, hi if self.T.index.get(key) is None else hi, (op, a, b, bits), key)
        return var(s)

    def binop(self, op, a, b, bits):
        """bitwise op / multiplication on normalised unsigned operands"""
        M = (1 << bits) - 1
        if op == 'mul':
            if not a[1]:
                return mulc(b, a[0])
            if not b[1]:
                return mulc(a, b[0])
            return self.opaque(op, a, b, bits)
        if not a[1] and not b[1]:
            x, y = a[0] & M, b[0] & M
            if op == 'and':
                return const(x & y)
            if op == 'or':
                return const(x | y)
            if op == 'xor':
                return const(x ^ y)
            if op == 'shl':
                return const((x << y) & M)
            if op == 'lshr':
                return const(x >> y)
        if op in ('shl', 'lshr'):
            if not b[1]:
                return mulc(a, 1 << b[0]) if op == 'shl' else self.floordiv(a, 1 << b[0])
            return self.opaque(op, a, b, bits)
        if a == b:
            return const(0) if op == 'xor' else a
        if not a[1]:
            a, b = b, a
        if not b[1]:
            m = b[0] & M
            la, ha = self.rng(a)
            if m and la >= 0 and ha < (m & -m):     # disjoint bits
                return const(0) if op == 'and' else add(a, const(m))
            if op == 'and':
                if m == 0:
                    return const(0)
                if m == M:
                    return a
                # union of contiguous runs of mask bits, each 2^j*floor((a mod 2^k)/2^j)
                runs = []
                i = 0
                while i < bits:
                    if m >> i & 1:
                        j = i
                        while i < bits and m >> i & 1:
                            i += 1
                        runs.append((j, i))
                    else:
                        i += 1
                if len(runs) <= 2:
                    r = const(0)
                    for j, k in runs:
                        t = a if (k >= bits or ha < (1 << k)) and la >= 0 and k >= ha.bit_length() else self.mod2(a, 1 << k)
                        r = add(r, mulc(self.floordiv(t, 1 << j), 1 << j))
                    return r
                return self.opaque(op, a, b, bits)
            if m == 0:
                return a
            # bits of m that a already has as constants
            if op == 'or':
                x = self.binop('and', a, const(m), bits)
                # a | m = a + (m - (a & m))
                if x[1] and bin(m).count('1') > 8:
                    return self.opaque(op, a, b, bits)
                return add(a, sub(const(m), x))
            x = self.binop('and', a, const(m), bits)
            # a ^ m = a + m - 2 (a & m)
            return add(a, sub(const(m), mulc(x, 2)))
        # two symbolic operands: disjoint supports
        def low_zero(v):
            """2^k dividing every value of v"""
            g = v[0]
            for _, k in v[1]:
                g = gcd(g, k)
            return g & -g if g else 0
        if op in ('or', 'xor', 'and'):
            for x, y in ((a, b), (b, a)):
                g = low_zero(x)
                l, h = self.rng(y)
                lx, _ = self.rng(x)
                if g and 0 <= l and h < g and lx >= 0:
                    return const(0) if op == 'and' else add(x, y)
        return self.opaque(op, a, b, bits)

    def fmt(self, a):
        o = []
        for s, k in a[1]:
            n = self.T.syms[s].name
            o.append(('%+d*%s' % (k, n)) if k not in (1, -1) else ('+' if k > 0 else '-') + n)
        if a[0] or not o:
            o.append('%+d' % a[0])
        return ''.join(o)
