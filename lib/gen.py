"""Assertion checking and memory safety of whole operations, with inferred loop
invariants (affine equalities in the style of Karr, harvested linear
inequalities in the style of Houdini, partitioned by the shape of the state).

The harness (C++ text compiled with the library, never run) states what must
hold with sa_assert(); inputs come from sa_nd(); the library code between is
abstractly interpreted."""
import os
from math import gcd as _gcd
from fractions import Fraction
from interp import Interp, Policy, PathEnd, Violation, Imprecise, UNDEF, DESCENDED, Frame, State, tybits, tysize, struct_fields
from dom import Table, Num, NeedSplit, const, var, add, sub, mulc, addc, neg, is_const, INF

REPO = os.environ.get('STRF_REPO', '/repo') + '/'
BIG = 1 << 50       # assumption: no loop-carried quantity moves further than this from its initial value
INPUT_KINDS = ('unit', 'in', 'len', 'base')


class Loop:
    __slots__ = ('depth', 'fn', 'header', 'body', 'shapes', 'mode', 'backs', 'exits', 'nphi')


def form(v):
    return v is not None and v is not UNDEF and isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int)


class Shape:
    def __init__(self, root):
        self.root = root
        self.W = {}          # loc -> [stride, sym, bits]
        self.kill = set()    # locs whose content is forgotten
        self.eqs = []        # list of dict loc->Fraction : sum a*s = 0
        self.ineqs = {}      # key -> (dict loc->int, outer form) : sum a*s + outer >= 0
        self.dead = set()    # refuted inequality keys
        self.dirty = True
        self.rounds = 0
        self.roots = 1


class GPolicy(Policy):
    max_unroll = 10 ** 6

    def __init__(self, witness=0):
        self.witness = witness      # >0: follow loops exactly up to that many arrivals
        self.findings = []
        self.truncated = False
        self.stats = dict(loops=0, rounds=0, asserts=0, writes=0, reads=0, vcalls=0, paths=0)
        self.redirect = ()
        self.externs = {'_ZNSt6localeC1Ev': 'nop', '_ZNSt6localeD1Ev': 'nop', 'fwrite': 'm_fwrite', 'fputwc': 'm_fputwc'}
        self.probe = 0
        self.discrete_cells = set()
        self.max_rounds = 60
        self.partition_bools = True

    # ------------------------------------------------------------ reporting
    def exact(self, I, st, lin=None):
        """only input symbols involved?"""
        seen = set()

        def walk(a):
            for s, _ in a[1]:
                if s in seen:
                    continue
                seen.add(s)
                sy = I.T.syms[s]
                if sy.defn is None:
                    if sy.kind not in INPUT_KINDS:
                        return False
                else:
                    for x in sy.defn:
                        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
                            if not walk(x):
                                return False
            return True
        for c in st.num.cons:
            if not walk(c):
                return False
        for s in st.num.box:
            if not walk(var(s)):
                return False
        return lin is None or walk(lin)

    def libloc(self, I, st):
        """innermost location inside the library on the current stack"""
        loc = I.loc()
        if 'include/strf' in loc:
            return loc.replace(REPO, '')
        for fr in reversed(st.frames):
            i = fr.fn.blocks[fr.blk][fr.idx] if fr.idx < len(fr.fn.blocks[fr.blk]) else None
            if i is not None:
                l = I.mod.locs[i[3]]
                if 'include/strf' in l:
                    return l.replace(REPO, '')
        if 'lb' in st.x:
            return I.mod.locs[st.x['lb']].replace(REPO, '')
        return loc

    def report(self, I, st, kind, msg, lin=None):
        if self.probe:
            return
        if not st.num.feasible() or st.num.unsat():
            return
        chain = []
        for fr in st.frames:
            chain.append(fr.fn.dem.split('(')[0][-70:])
        self.findings.append(dict(kind=kind, msg=msg, where=self.libloc(I, st), fn=st.frames[-1].fn.dem[:160],
                                  chain=chain, exact=self.exact(I, st), cell=self.cell(I, st)))
        if len(self.findings) > 60:
            raise Imprecise('too many findings: ' + msg)

    def cell(self, I, st):
        o = []
        for s in sorted(st.num.box):
            sy = I.T.syms[s]
            if sy.kind in INPUT_KINDS:
                l, h = st.num.srange(s)
                o.append('%s=%s' % (sy.name, l) if l == h else '%s in [%s,%s]' % (sy.name, l, h))
        return '; '.join(o[:14])

    # ------------------------------------------------------------ driving
    def run_entry(self, mod, entry, setup, max_paths=20000, max_steps=200000):
        fn = mod.funcs[entry]
        I = Interp(mod, self, max_paths=max_paths, max_steps=max_steps)
        self.I = I
        I.dyn_bounds = self.dyn_bounds
        st = State(I.T)
        self.ghost = I.region('ghost', 'ghost', const(0), const(1 << 20), key=('ghost',))
        st.mem[self.ghost.sym] = {}
        st.x = {'loops': ()}
        self.discrete_cells = set()
        args = setup(I, st, fn)
        fr = Frame(fn, -1)
        for k, v in enumerate(args):
            fr.env[k] = v
        st.frames = [fr]
        try:
            I.run([st])
        finally:
            self.stats['paths'] += I.paths
            self.stats['steps'] = self.stats.get('steps', 0) + I.steps
            self.visited = I.visited
        return self.findings

    # ghost cells
    def gget(self, st, k, d=None):
        c = st.mem[self.ghost.sym].get(k)
        return c[1] if c is not None else d

    def gset(self, st, k, v):
        st.mem[self.ghost.sym][k] = (8, v)

    # ------------------------------------------------------------ hooks
    def on_oob(self, I, st, msg):
        self.report(I, st, 'bounds', msg)
        raise PathEnd()

    def dyn_bounds(self, st, reg):
        g = st.mem[self.ghost.sym]
        a = g.get(reg.sym * 32)
        if a is None:
            return reg.lo, reg.hi
        b = var(reg.sym) if reg.kind == 'wlog' else const(0)
        return sub(a[1], b), sub(g[reg.sym * 32 + 8][1], b)

    def on_call(self, I, st, fn, args):
        for rx, target in self.redirect:
            if rx.search(fn.dem):
                f = I.mod.funcs[target]
                ci = st.frames[-1].fn.blocks[st.frames[-1].blk][st.frames[-1].idx]
                I.push(st, f, [v[0] for v in args][:len(f.args)], ci[1])
                return DESCENDED
        return None

    def nd(self, I, st, name, lo, hi, kind='in'):
        return I.fresh(name, lo, hi, kind)

    def on_extern(self, I, st, name, args, rty):
        if name == 'sa_nd':
            lo = st.num.norm(args[0][0], 64, True)
            hi = st.num.norm(args[1][0], 64, True)
            l, h = st.num.rng(lo)[0], st.num.rng(hi)[1]
            if l > h:
                raise PathEnd()
            v = var(I.fresh('nd', l, h, 'in'))
            if not is_const(lo) and not st.num.refine(('ge0', sub(v, lo))):
                raise PathEnd()
            if not is_const(hi) and not st.num.refine(('ge0', sub(hi, v))):
                raise PathEnd()
            return v
        if name == 'sa_pick':
            l, h = args[0][0][0], args[1][0][0]
            s = st.x.get('pick')
            if s is None:
                s = st.x['pick'] = I.fresh('pick', l, h, 'unit')
            a, b = st.num.srange(s)
            if a != b:
                raise NeedSplit([[('box', s, v, v)] for v in range(a, b + 1)])
            st.x['pick'] = None
            return const(a)
        if name == 'sa_unit':
            return var(I.fresh('u', args[0][0][0], args[1][0][0], 'unit'))
        if name == 'sa_num':
            return self.mknum(I, st, *[a[0][0] for a in args])
        if name == 'sa_digit':
            i = st.num.norm(args[0][0], 32, True)
            d = st.x['digits'] if len(args) < 2 else None
            return d[i[0]] if i[0] < len(d) else const(0)
        if name == 'sa_region':
            k = args[0][0][0]
            kind, unit = {0: ('wlog', 1), 1: ('units', args[1][0][0])}[k // 100]
            r = I.region(kind, '%s%d' % (kind, k % 100), const(0), const(0), unit, key=('saregion', k))
            return var(r.sym)
        if name == 'sa_window':
            r, o = I.split_ptr(args[0][0])
            r2, o2 = I.split_ptr(args[1][0])
            assert r is not None and r is r2
            st.mem[self.ghost.sym][r.sym * 32] = (8, args[0][0] if r.kind == 'wlog' else o)
            st.mem[self.ghost.sym][r.sym * 32 + 8] = (8, args[1][0] if r.kind == 'wlog' else o2)
            return ()
        if name in ('sa_touch', 'sa_peek'):
            n = st.num.norm(args[1][0], 64, True)
            p = args[0][0]
            r, o = I.split_ptr(p)
            if not st.num.ge0(addc(n, -1)):
                return ()
            if r is None:
                raise Violation('null', 'access through a pointer to no object')
            I.bounds_range(st, r, o, n, 'write' if name == 'sa_touch' else 'read')
            if name == 'sa_touch' and r.kind != 'wlog':
                I.havoc_range(st, r, o, n)
            return ()
        if name == 'sa_inside':
            r, o = I.split_ptr(args[0][0])
            r1, lo = I.split_ptr(args[1][0])
            r2, hi = I.split_ptr(args[2][0])
            self.stats['asserts'] += 0 if self.probe else 1
            if r is not r1 or not st.num.implied(sub(o, lo)) or not st.num.implied(sub(hi, o)):
                self.report(I, st, 'assert', self.cstr(I, args[3][0]))
                raise PathEnd()
            return ()
        if name == 'sa_same':
            a, b = I.split_ptr(args[0][0])[0], I.split_ptr(args[1][0])[0]
            return const(1 if a is b and a is not None else 0)
        if name == 'sa_copied':
            n = st.num.norm(args[2][0], 64, True)
            self.stats['asserts'] += 0 if self.probe else 1
            if not st.num.ge0(addc(n, -1)):
                return ()
            d, s = args[0][0], args[1][0]
            dr = I.split_ptr(d)[0]
            ok = False
            for p, m, v in reversed(st.writes):
                if isinstance(m, int):
                    m = const(m)
                pr = I.split_ptr(p)[0]
                if pr is not dr:
                    continue
                if isinstance(v, tuple) and v and v[0] == 'copy' and self.equal(st, p, d) and self.equal(st, m, n):
                    ok = I.split_ptr(v[1])[0] is I.split_ptr(s)[0] and self.equal(st, v[1], s)
                break
            if not ok:
                self.report(I, st, 'assert', self.cstr(I, args[3][0]))
                raise PathEnd()
            return ()
        if name == 'sa_zeroed':
            self.stats['asserts'] += 0 if self.probe else 1
            n = args[1][0][0]
            if not st.writes or st.writes[-1][0] != args[0][0] or st.writes[-1][1] != n or st.writes[-1][2] != const(0):
                self.report(I, st, 'assert', self.cstr(I, args[2][0]))
                raise PathEnd()
            return ()
        if name == 'sa_assert':
            c = st.num.norm(args[0][0], 8, False)
            self.stats['asserts'] += 0 if self.probe else 1
            if st.num.eq0(c):
                self.report(I, st, 'assert', self.cstr(I, args[1][0]) or 'assertion')
                raise PathEnd()
            return ()
        if name == 'sa_assume':
            if st.num.eq0(st.num.norm(args[0][0], 8, False)):
                raise PathEnd()
            return ()
        t = self.externs.get(name)
        if t is not None:
            if t == 'nop':
                return args[0][0] if rty == 'ptr' and args else const(0) if tybits(rty) else ()
            f = I.mod.funcs[t]
            ci = st.frames[-1].fn.blocks[st.frames[-1].blk][st.frames[-1].idx]
            I.push(st, f, [v[0] for v in args][:len(f.args)], ci[1])
            return DESCENDED
        r = self.extern(I, st, name, args, rty)
        if r is not None:
            return r
        raise Imprecise('call to undefined function ' + name)

    def extern(self, I, st, name, args, rty):
        return None

    def mknum(self, I, st, base, n, mx):
        """a number with exactly n digits in the given base, at most mx; its digits are independent symbols"""
        mx &= (1 << 64) - 1
        ds = st.x.get('num')
        if ds is None:
            ds = st.x['num'] = tuple(I.fresh('d%d' % i, 1 if i == n - 1 and n > 1 else 0, base - 1, 'unit') for i in range(n))
            if base ** n - 1 > mx:
                if base ** (n - 1) > mx:
                    raise PathEnd()
                m = [(mx // base ** i) % base for i in range(n)]
                alts = []
                for i in range(n - 1, -1, -1):
                    lo = 1 if i == n - 1 and n > 1 else 0
                    eq = [('box', ds[j], m[j], m[j]) for j in range(n - 1, i, -1)]
                    if m[i] > lo:
                        alts.append(eq + [('box', ds[i], lo, m[i] - 1)])
                alts.append([('box', ds[j], m[j], m[j]) for j in range(n)])
                raise NeedSplit(alts)
        st.x['num'] = None
        st.x['digits'] = tuple(var(d) for d in ds)
        v = const(0)
        for i, d in enumerate(ds):
            v = add(v, var(d, base ** i))
        return v

    def cstr(self, I, p):
        r, o = I.split_ptr(p)
        if r is None or r.kind != 'const' or not is_const(o):
            return None
        raw, _ = I.mod.gbytes(r.name)
        e = raw.find(b'\0', o[0])
        return raw[o[0]:e].decode('latin1')

    def equal(self, st, a, b):
        d = sub(a, b)
        if d[1]:
            d = st.num.renorm(d)
        return st.num.implied(d) and st.num.implied(neg(d))

    # ------------------------------------------------------------ loops
    def on_edge(self, I, st, fr, prev, target):
        ls = st.x.get('loops', ())
        n = len(st.frames)
        while ls:
            L = ls[-1]
            if n > L.depth or (n == L.depth and fr.fn is L.fn and target in L.body):
                break
            if L.mode == 'probe':
                L.exits += 1
                raise PathEnd()
            ls = ls[:-1]
        st.x['loops'] = ls

    def on_pop(self, I, st):
        ls = st.x.get('loops', ())
        n = len(st.frames)
        while ls and n < ls[-1].depth:
            if ls[-1].mode == 'probe':
                ls[-1].exits += 1
                raise PathEnd()
            ls = ls[:-1]
        st.x['loops'] = ls

    def on_header(self, I, st, fr, h, prev):
        ls = st.x.get('loops', ())
        if self.witness:
            c = (fr.hits or {}).get(h, 0)
            if c >= self.witness:
                self.truncated = True
                raise PathEnd()
            return None
        if ls and ls[-1].depth == len(st.frames) and ls[-1].fn is fr.fn and ls[-1].header == h:
            L = ls[-1]
            if L.mode == 'probe':
                b = st.copy()
                b.x['cur'] = I.cur
                L.backs.append(b)
            raise PathEnd()
        nphi = 0
        anyc = False
        nums = 0
        dead = fr.fn.dead_phis
        for i in fr.fn.blocks[h]:
            if i[0] != 'phi':
                break
            nphi += 1
            if i[1] not in dead and form(fr.env[i[1]]):
                nums += 1
                anyc = anyc or is_const(fr.env[i[1]])
        L = Loop()
        L.depth = len(st.frames)
        L.fn = fr.fn
        L.header = h
        L.body = fr.fn.loops[h]
        L.shapes = {}
        L.mode = 'probe'
        L.nphi = nphi
        L.backs = []
        L.exits = 0
        hits = (fr.hits or {}).get(h, 0)
        s0 = st.copy()
        f0 = s0.frames[-1]
        f0.prev = fr.blk
        f0.blk = h
        f0.idx = nphi
        s0.x['loops'] = ls + (L,)
        # unroll while the loop cannot be left
        if hits < (100 if anyc or not nums else 2):
            self.subrun(I, [s0.copy()])
            if L.exits == 0:
                return None
            if not L.backs:
                return None
            L.exits = 0
        self.stats['loops'] += 1
        self.absorb(I, L, s0, None)
        n = 0
        while True:
            todo = [k for k, s in L.shapes.items() if s.dirty]
            if not todo:
                break
            sh = L.shapes[todo[0]]
            sh.dirty = False
            sh.rounds += 1
            n += 1
            self.stats['rounds'] += 1
            if n > self.max_rounds:
                raise Imprecise('loop invariant does not stabilise at ' + I.loc())
            H = self.mkstate(I, L, sh)
            L.backs = []
            self.subrun(I, [H])
            for b in L.backs:
                self.absorb(I, L, b, sh)
        L.mode = 'final'
        for sh in L.shapes.values():
            H = self.mkstate(I, L, sh)
            I.work.append(H)
        raise PathEnd()

    def subrun(self, I, sts):
        self.probe += 1
        try:
            I.run(sts)
        finally:
            self.probe -= 1

    # ---- locations
    def locs(self, I, st, L):
        """loc -> value"""
        o = {}
        fr = st.frames[-1]
        live = set(L.fn.live_in(L.header))
        dead = L.fn.dead_phis
        for i in L.fn.blocks[L.header][:L.nphi]:
            if i[1] not in dead:
                live.add(i[1])
        for r in live:
            if r in fr.env:
                o[('r', r)] = fr.env[r]
        for rs, cells in st.mem.items():
            for off, (sz, v) in cells.items():
                o[('m', rs, off, sz)] = v
        return o

    def cls(self, I, loc, v):
        if v is None:
            return 'absent'
        if v is UNDEF or (isinstance(v, tuple) and v and v[0] == 'undef'):
            return 'u'
        if form(v):
            for s, k in v[1]:
                if s in I.regions:
                    return ('p', s)
            if loc[0] == 'm' and loc[3] == 1 and is_const(v) and v[0] in (0, 1) and self.partition_bools and I.regions[loc[1]].kind != 'const':
                return ('c', v[0])
            return 'i'
        if v[0] == 'agg':
            return 'agg'
        return 'f'

    def shape_key(self, I, L, locs):
        k = []
        for l in sorted(locs, key=str):
            c = self.cls(I, l, locs[l])
            if isinstance(c, tuple):
                k.append((l, c))
        return tuple(k)

    def lazyval(self, I, st, loc):
        """value of an absent cell"""
        _, rs, off, sz = loc
        reg = I.regions[rs]
        if reg.kind in ('obj', 'glob'):
            c = st.mem.get(rs, {})
            if any(o < off + sz and o + x[0] > off for o, x in c.items()):
                return None
            try:
                return self.lazy_field(I, st, reg, off, 'i%d' % (8 * sz))
            except Imprecise:
                return None
        return None

    def absorb(self, I, L, st, src):
        locs = self.locs(I, st, L)
        key = self.shape_key(I, L, locs)
        sh = L.shapes.get(key)
        if sh is None:
            if len(L.shapes) > 40:
                raise Imprecise('too many loop shapes at ' + I.loc())
            st.frames[-1].blk = L.header
            st.frames[-1].idx = L.nphi
            sh = L.shapes[key] = Shape(st)
            sh.locs = locs
            return
        # same shape: compare with the abstract header state
        num = st.num
        root = sh.locs
        new = False
        if sh is not src:
            # another way in: keep only the facts both have
            rn = sh.root.num
            keep = tuple(c for c in rn.cons if num.implied(c))
            if keep != rn.cons:
                rn.cons = keep
                sh.dirty = True
            for s in list(rn.box):
                if I.T.syms[s].kind == 'base':
                    continue
                l, h = rn.box[s]
                l2, h2 = num.srange(s)
                if l2 < l or h2 > h:
                    rn.box[s] = (min(l, l2), max(h, h2))
                    sh.dirty = True
        H = getattr(sh, 'H', None)
        diffs = {}
        for l in set(locs) | set(root):
            if l in sh.kill:
                continue
            a = root.get(l)
            b = locs.get(l)
            if a is None and l[0] == 'm':
                a = self.lazyval(I, sh.root, l)
            if b is None and l[0] == 'm':
                b = self.lazyval(I, st, l)
            if l in sh.W:
                if not form(b):
                    sh.kill.add(l)
                    new = True
                    continue
                diffs[l] = self.delta(I, st, l, a, b)
                continue
            if a is None and b is None:
                continue
            if a == b:
                continue
            if form(a) and form(b):
                d = self.delta(I, st, l, a, b)
                if not d[1] and d[0] == 0:
                    continue
                if l not in root:
                    root[l] = a
                    sh.root.mem.setdefault(l[1], {})[l[2]] = (l[3], a)
                bits = 8 * l[3] if l[0] == 'm' else self.regbits(L, l[1])
                sh.W[l] = [0, None, bits]
                diffs[l] = d
                new = True
            else:
                if self.eqval(a, b):
                    continue
                sh.kill.add(l)
                new = True
        if new:
            sh.W = {l: w for l, w in sh.W.items() if l not in sh.kill}
            diffs = {l: d for l, d in diffs.items() if l in sh.W}
        # strides
        for l, d in diffs.items():
            g = abs(d[0])
            for s, k in d[1]:
                g = _gcd(g, abs(k))
            w = sh.W[l]
            g2 = _gcd(w[0], g)
            if g2 != w[0]:
                w[0] = g2
                w[1] = None
                new = True
        if new:
            # new coordinates: start over from the affine point
            sh.dirty = True
            for l, w in sh.W.items():
                w[1] = I.fresh('%s' % self.locname(I, l), -BIG, BIG)
            sh.eqs = [{l: Fraction(1)} for l in sh.W]
            sh.ineqs = {}
            sh.dead = set()
            sh.seeded = False
            self.seed(I, L, sh)
            sh.pending = getattr(sh, 'pending', [])
        # equalities
        if sh.eqs:
            self.join_eqs(I, st, sh, diffs)
        # inequalities
        for k in list(sh.ineqs):
            a, outer = sh.ineqs[k]
            f = outer
            for l, c in a.items():
                d = diffs.get(l, (0, ()))
                f = add(f, mulc(self.exactdiv(d, sh.W[l][0]), c))
            if not num.implied(f):
                del sh.ineqs[k]
                sh.dead.add(k)
                sh.dirty = True
        if not new:
            self.harvest(I, L, sh, st)

    def eqval(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        if a is UNDEF or b is UNDEF:
            return a is b
        if a[0] == 'agg' and b[0] == 'agg':
            return len(a[1]) == len(b[1]) and all(self.eqval(x, y) for x, y in zip(a[1], b[1]))
        return a == b

    def exactdiv(self, d, g):
        if g in (0, 1):
            return d
        return (d[0] // g, tuple((s, k // g) for s, k in d[1]))

    def delta(self, I, st, l, a, b):
        d = sub(b, a)
        if d[1]:
            d = st.num.renorm(d)
            d = st.num.renorm(d)
            d = self.subst(self.eqsubst(st), d)
        return d

    def eqsubst(self, st):
        """equalities known in the cell, as substitutions for their newest symbol"""
        c = st.x.get('eqsub')
        if c is not None and c[0] is st.num.cons:
            return c[1]
        num = st.num
        cs = num.cons
        have = set(cs)
        out = []
        for lin in cs:
            e = None
            if neg(lin) in have:
                e = lin
            elif num.implied(neg(lin)):
                e = lin
            if e is None:
                continue
            e = num.renorm(e)
            e = self.subst(out, e)
            cand = [(s, k) for s, k in e[1] if k in (1, -1)]
            if not cand:
                continue
            s, k = max(cand)
            f = mulc((e[0], tuple(x for x in e[1] if x[0] != s)), -k)
            out = [(t, self.subst([(s, f)], g)) for t, g in out] + [(s, f)]
        st.x['eqsub'] = (num.cons, out)
        return out

    @staticmethod
    def subst(eqs, d):
        for s, f in eqs:
            for t, k in d[1]:
                if t == s:
                    d = add((d[0], tuple(x for x in d[1] if x[0] != s)), mulc(f, k))
                    break
        return d

    def regbits(self, L, r):
        for i in L.fn.blocks[L.header][:L.nphi]:
            if i[1] == r:
                return tybits(i[2]) or 64
        return 64

    def locname(self, I, l):
        if l[0] == 'r':
            return 'v%d' % l[1]
        return '%s+%s' % (I.regions[l[1]].name[-12:], l[2])

    def seed(self, I, L, sh):
        """inequality candidates from the root values"""
        for l, w in sh.W.items():
            s = {l: 1}
            self.cand(sh, s, const(0))
            self.cand(sh, {l: -1}, const(0))
            a = sh.locs[l]
            if form(a) and not any(x in I.regions for x, _ in a[1]):
                g = w[0]
                self.cand(sh, {l: g}, a)                                   # v >= 0
                self.cand(sh, {l: g}, addc(a, -1))                         # v >= 1
                self.cand(sh, {l: -g}, addc(neg(a), (1 << w[2]) - 1))      # v <= umax
                self.cand(sh, {l: -g}, addc(neg(a), (1 << (w[2] - 1)) - 1))
                self.cand(sh, {l: g}, addc(a, 1 << (w[2] - 1)))
        # order between pointers into one object and between equal-stride integers
        ls = list(sh.W)
        for i in range(len(ls)):
            for j in range(len(ls)):
                if i == j:
                    continue
                a, b = sh.locs[ls[i]], sh.locs[ls[j]]
                if not (form(a) and form(b)):
                    continue
                pa = [s for s, _ in a[1] if s in I.regions]
                pb = [s for s, _ in b[1] if s in I.regions]
                if pa == pb and (pa or len(ls) < 12):
                    self.cand(sh, {ls[i]: sh.W[ls[i]][0], ls[j]: -sh.W[ls[j]][0]}, sub(a, b))
        # and against unchanged pointers of the same object
        for l in ls:
            a = sh.locs[l]
            pa = [s for s, _ in a[1] if s in I.regions] if form(a) else []
            if not pa:
                continue
            for m, b in sh.locs.items():
                if m in sh.W or not form(b) or [s for s, _ in b[1] if s in I.regions] != pa:
                    continue
                self.cand(sh, {l: sh.W[l][0]}, sub(a, b))
                self.cand(sh, {l: -sh.W[l][0]}, sub(b, a))

    def cand(self, sh, a, outer):
        k = (tuple(sorted(a.items(), key=str)), outer)
        if k in sh.dead or k in sh.ineqs:
            return
        # must hold at the root (all s = 0)
        if not sh.root.num.implied(outer):
            return
        sh.ineqs[k] = (a, outer)
        sh.dirty = True

    def harvest(self, I, L, sh, st):
        """conditions met on the way round the loop become candidates"""
        syms = {w[1]: l for l, w in sh.W.items() if w[1] is not None}
        solved = getattr(sh, 'solved', {})
        have = set(sh.H.num.cons) if getattr(sh, 'H', None) is not None else set()
        cs = [c for c in st.num.cons if c not in have]
        for s in syms:
            b = st.num.box.get(s)
            if b is not None:
                if b[0] > -BIG:
                    cs.append(addc(var(s), -b[0]))
                if b[1] < BIG:
                    cs.append(addc(var(s, -1), b[1]))
        base = getattr(sh, 'symlimit', 0)
        for c in cs:
            a = {}
            outer = (c[0], ())
            ok = True
            for s, k in c[1]:
                if s in syms:
                    a[syms[s]] = a.get(syms[s], 0) + k
                elif s < base and I.T.syms[s].defn is None:
                    outer = add(outer, var(s, k))
                else:
                    ok = False
                    break
            if not ok or not a:
                continue
            for dlt in (0, 1):
                self.cand(sh, a, addc(outer, dlt))
            g = 0
            for l in a:
                g = _gcd(g, abs(a[l]))
            if g > 1:
                self.cand(sh, a, addc(outer, g))

    def join_eqs(self, I, st, sh, diffs):
        """keep the affine equalities that hold for this arrival too"""
        rows = []
        for e in sh.eqs:
            r = {}
            for l, a in e.items():
                d = self.exactdiv(diffs.get(l, (0, ())), sh.W[l][0] or 1)
                if d[0]:
                    r[None] = r.get(None, 0) + a * d[0]
                for s, k in d[1]:
                    r[s] = r.get(s, 0) + a * k
            r = {k: v for k, v in r.items() if v}
            if r and self.zero(st, r):
                r = {}
            rows.append(r)
        if not any(rows):
            return
        sh.dirty = True
        # eliminate: combinations of equalities whose residual vanishes
        work = [(dict(r), dict(e)) for r, e in zip(rows, sh.eqs)]
        out = []
        while work:
            z = [w for w in work if not w[0]]
            out += [e for _, e in z]
            work = [w for w in work if w[0]]
            if not work:
                break
            pr, pe = work.pop(0)
            k = next(iter(pr))
            nw = []
            for r, e in work:
                if k in r:
                    f = r[k] / Fraction(pr[k])
                    r = self.comb(r, pr, -f)
                    e = self.comb(e, pe, -f)
                nw.append((r, e))
            work = nw
        sh.eqs = [e for e in out if e]

    def zero(self, st, r):
        den = 1
        for v in r.values():
            den = den * Fraction(v).denominator // _gcd(den, Fraction(v).denominator)
        f = (int(r.get(None, 0) * den), tuple(sorted((s, int(v * den)) for s, v in r.items() if s is not None)))
        return st.num.implied(f) and st.num.implied(neg(f))

    @staticmethod
    def comb(a, b, f):
        r = dict(a)
        for k, v in b.items():
            n = r.get(k, 0) + f * v
            if n:
                r[k] = n
            else:
                r.pop(k, None)
        return r

    def mkstate(self, I, L, sh):
        st = sh.root.copy()
        st.x = dict(sh.root.x)
        ls = [x for x in sh.root.x.get('loops', ()) if x is not L]
        st.x['loops'] = tuple(ls) + (L,)
        st.steps = 0
        sh.symlimit = min([w[1] for w in sh.W.values() if w[1] is not None], default=len(I.T.syms))
        # solve the equalities
        sol = {}
        eqs = [dict(e) for e in sh.eqs]
        cons = []
        for e in eqs:
            for l, f in list(sol.items()):
                if l in e:
                    c = e.pop(l)
                    for m, v in f.items():
                        n = e.get(m, 0) + c * v
                        if n:
                            e[m] = n
                        else:
                            e.pop(m, None)
            if not e:
                continue
            piv = None
            for l in sorted(e, key=str):
                if all((e[m] / e[l]).denominator == 1 for m in e):
                    piv = l
                    break
            if piv is None:
                cons.append(e)
                continue
            c = e.pop(piv)
            f = {m: -v / c for m, v in e.items()}
            for l in sol:
                if piv in sol[l]:
                    k = sol[l].pop(piv)
                    for m, v in f.items():
                        n = sol[l].get(m, 0) + k * v
                        if n:
                            sol[l][m] = n
                        else:
                            sol[l].pop(m, None)
            sol[piv] = f
        coord = {}
        for l, w in sh.W.items():
            if l in sol:
                c = const(0)
                for m, v in sol[l].items():
                    c = add(c, var(sh.W[m][1], int(v)))
                coord[l] = c
            else:
                coord[l] = var(w[1])
        fr = st.frames[-1]
        live = set(L.fn.live_in(L.header)) | {i[1] for i in L.fn.blocks[L.header][:L.nphi]}
        nargs = len(L.fn.args)
        al = set(L.fn.alloca_ids())
        fr.env = {k: v for k, v in fr.env.items() if k in live or k in al or k < nargs}
        for l, w in sh.W.items():
            v = add(sh.locs[l], mulc(coord[l], w[0]))
            self.put(st, l, v)
        for l in sh.kill:
            if l[0] == 'r':
                a = sh.locs.get(l)
                b = UNDEF if not (a is not None and a is not UNDEF and not form(a)) else ('fl', I.fresh_id())
                if a is not None and a is not UNDEF and not form(a) and a[0] == 'agg':
                    b = UNDEF
                fr.env[l[1]] = b
            else:
                st.mem.get(l[1], {}).pop(l[2], None)
                if I.regions[l[1]].kind in ('obj', 'glob'):
                    st.mem.setdefault(l[1], {})[l[2]] = (l[3], var(I.fresh('killed', 0, (1 << 8 * l[3]) - 1)))
        ok = True
        for a, outer in sh.ineqs.values():
            f = outer
            for l, c in a.items():
                f = add(f, mulc(coord[l], c))
            if f[1] and not st.num.refine(('ge0', f)):
                ok = False
        for e in cons:
            den = 1
            for v in e.values():
                den = den * v.denominator // _gcd(den, v.denominator)
            f = const(0)
            for l, v in e.items():
                f = add(f, mulc(coord[l], int(v * den)))
            st.num.refine(('ge0', f))
            st.num.refine(('ge0', neg(f)))
        sh.H = st.copy()
        sh.solved = sol
        return st

    def put(self, st, l, v):
        if l[0] == 'r':
            st.frames[-1].env[l[1]] = v
        else:
            st.mem.setdefault(l[1], {})[l[2]] = (l[3], v)
