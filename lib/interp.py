"""Abstract interpreter over the JSON form of clang's LLVM IR (tools/irdump.cpp).

The IR is analysed, never executed.  Registers hold linear forms (dom.py); every
control decision that the abstract cell does not settle partitions the cell.
Loops are cut at their headers by a policy (see tcode.py, printers) or, when the
header carries only constants, followed until the cell leaves the loop.
"""
import json
import numpy as np
from dom import (Table, Num, NeedSplit, Imprecise, const, var, add, sub, mulc, addc, neg, is_const, INF)

UNDEF = ('undef',)
DESCENDED = object()


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind = kind
        self.msg = msg


class PathEnd(Exception):
    """the path is finished (cut, unreachable, thrown)"""


class Func:
    def __init__(self, name, j, mod):
        self.name = name
        self.dem = j['dem']
        self.decl = j['decl']
        self.args = j['args']
        self.ret = j['ret']
        self.loc = j.get('loc', '')
        self.blocks = j.get('blocks')
        self.mod = mod
        self._loops = None
        self._live = None
        self._dead = None

    def succs(self, b):
        t = self.blocks[b][-1]
        op = t[0]
        if op == 'br':
            return [t[5], t[6]] if len(t) > 5 else [t[4]]
        if op == 'switch':
            return [t[5]] + [x[1] for x in t[6]]
        if op == 'invoke':
            return [t[6]]
        return []

    @property
    def loops(self):
        """header -> set(blocks of the natural loop)"""
        if self._loops is not None:
            return self._loops
        color = {}
        back = []
        preds = {}
        stack = [(0, iter(self.succs(0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                preds.setdefault(s, set()).add(b)
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    adv = True
                    break
                elif color[s] == 1:
                    back.append((b, s))
            if not adv:
                color[b] = 2
                stack.pop()
        loops = {}
        for t, h in back:
            body = loops.setdefault(h, {h})
            w = [t]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(preds.get(x, ()))
        self._loops = loops
        return loops

    @property
    def dead_phis(self):
        """phis whose value never reaches a non-phi instruction"""
        if self._dead is None:
            uses = {}

            def ops(x, acc):
                if isinstance(x, list):
                    if len(x) == 2 and x[0] == 'v' and isinstance(x[1], int):
                        acc.add(x[1])
                    else:
                        for y in x:
                            ops(y, acc)
            live = set()
            phi = {}
            for ins in self.blocks:
                for i in ins:
                    a = set()
                    if i[0] == 'phi':
                        for pb, v in i[4]:
                            ops(v, a)
                        phi[i[1]] = a
                    else:
                        ops(i[4:], a)
                        live |= a
            w = [p for p in phi if p in live]
            seen = set(w)
            while w:
                for x in phi[w.pop()]:
                    if x in phi and x not in seen:
                        seen.add(x)
                        w.append(x)
            self._dead = set(phi) - seen
        return self._dead

    def alloca_ids(self):
        c = self.__dict__.get('_alloca_ids')
        if c is None:
            c = self._alloca_ids = [i[1] for b in self.blocks for i in b if i[0] == 'alloca']
        return c

    def live_in(self, blk):
        if self._live is None:
            n = len(self.blocks)
            use = [set() for _ in range(n)]
            df = [set() for _ in range(n)]
            phiuse = {}

            def ops(x, acc):
                if isinstance(x, list):
                    if len(x) == 2 and x[0] == 'v' and isinstance(x[1], int):
                        acc.add(x[1])
                    else:
                        for y in x:
                            ops(y, acc)
            for b, ins in enumerate(self.blocks):
                for i in ins:
                    if i[0] == 'phi':
                        for pb, v in i[4]:
                            a = set()
                            ops(v, a)
                            phiuse.setdefault(pb, set()).update(a)
                        df[b].add(i[1])
                        continue
                    a = set()
                    ops(i[4:], a)
                    use[b] |= (a - df[b])
                    if i[1] >= 0:
                        df[b].add(i[1])
            live = [set() for _ in range(n)]
            ch = True
            while ch:
                ch = False
                for b in range(n - 1, -1, -1):
                    out = set(phiuse.get(b, ()))
                    for s in self.succs(b):
                        out |= live[s]
                    t = self.blocks[b][-1]
                    if t[0] == 'invoke' and t[7] >= 0:
                        pass
                    ni = use[b] | (out - df[b])
                    if ni != live[b]:
                        live[b] = ni
                        ch = True
            self._live = live
        return self._live[blk]


class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.path = path
        self.locs = j['locs']
        self.globals = j['globals']
        self.funcs = {n: Func(n, f, self) for n, f in j['funcs'].items()}
        self._bytes = {}

    def gbytes(self, g):
        if g not in self._bytes:
            G = self.globals[g]
            b = G.get('bytes', '')
            raw = bytes.fromhex(b) if b else bytes(G['size'])
            rel = {o: (s, a) for o, s, a in G.get('relocs', [])}
            self._bytes[g] = (raw, rel)
        return self._bytes[g]


class Region:
    __slots__ = ('sym', 'kind', 'name', 'lo', 'hi', 'unit', 'info')

    def __init__(self, sym, kind, name, lo, hi, unit=1, info=None):
        self.sym = sym
        self.kind = kind
        self.name = name
        self.lo = lo
        self.hi = hi
        self.unit = unit
        self.info = info


class Frame:
    __slots__ = ('fn', 'env', 'blk', 'prev', 'idx', 'retid', 'hits')

    def __init__(self, fn, retid):
        self.fn = fn
        self.env = {}
        self.blk = 0
        self.prev = -1
        self.idx = 0
        self.retid = retid
        self.hits = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.env = dict(self.env)
        f.blk = self.blk
        f.prev = self.prev
        f.idx = self.idx
        f.retid = self.retid
        f.hits = dict(self.hits) if self.hits else None
        return f


class State:
    __slots__ = ('num', 'frames', 'mem', 'events', 'writes', 'x', 'ret', 'steps', 'units', 'reads')

    def __init__(self, T):
        self.num = Num(T)
        self.frames = []
        self.mem = {}
        self.events = ()
        self.writes = ()
        self.x = {}
        self.ret = None
        self.steps = 0
        self.units = ()
        self.reads = 0

    def copy(self):
        s = State.__new__(State)
        s.num = self.num.copy()
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.events = self.events
        s.writes = self.writes
        s.x = dict(self.x)
        s.ret = self.ret
        s.steps = self.steps
        s.units = self.units
        s.reads = self.reads
        return s


def form(v):
    return isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int)


def tybits(t):
    if t[0] == 'i':
        return int(t[1:])
    if t == 'ptr':
        return 64
    return 0


def tysize(t):
    if t == 'ptr' or t == 'double':
        return 8
    if t == 'float':
        return 4
    if t[0] == 'i':
        return (int(t[1:]) + 7) // 8
    return 0


def struct_fields(t):
    """'{0:ptr,8:i64}' -> [(off,type)] (one level, nested kept as text)"""
    o = []
    body = t[1:-1]
    depth = 0
    cur = ''
    parts = []
    for ch in body:
        if ch in '{[':
            depth += 1
        if ch in '}]':
            depth -= 1
        if ch == ',' and depth == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        parts.append(cur)
    for p in parts:
        i = p.index(':')
        o.append((int(p[:i]), p[i + 1:]))
    return o


class Policy:
    """hooks; override"""
    max_unroll = 1200

    def on_header(self, I, st, fr, h, prev):
        """called when control enters loop header h of fr.fn from block prev.
        return None to go on (unroll), or raise PathEnd."""
        return None

    def on_edge(self, I, st, fr, prev, target):
        pass

    symbool = False     # keep comparisons on one finite symbol symbolic

    def on_pop(self, I, st):
        pass

    def on_return(self, I, st):
        raise PathEnd()

    def on_vcall(self, I, st, obj, slot, args, rty):
        raise Imprecise('virtual call')

    def on_extern(self, I, st, name, args, rty):
        raise Imprecise('call to undefined function ' + name)

    def on_call(self, I, st, fn, args):
        """may return a value to replace the call (or None to descend)"""
        return None

    def on_oob(self, I, st, msg):
        raise Violation('bounds', msg)

    def on_store(self, I, st, reg, ptr, size, val):
        return False

    def lazy_field(self, I, st, reg, off, ty):
        raise Imprecise('read of unknown memory %s+%d' % (reg.name, off))


class Interp:
    def __init__(self, mod, policy, max_paths=60000, max_steps=400000):
        self.mod = mod
        self.P = policy
        self.T = Table()
        self.regions = {}
        self.gsym = {}
        self.nfresh = 0
        self.paths = 0
        self.steps = 0
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.cur = None
        self.visited = set()

    # ------------------------------------------------ symbols / regions
    def fresh(self, name, lo, hi, kind='num'):
        self.nfresh += 1
        return self.T.new('%s.%d' % (name, self.nfresh), kind, lo, hi)

    def region(self, kind, name, lo, hi, unit=1, info=None, key=None):
        if key is not None and key in self.T.index:
            return self.regions[self.T.index[key]]
        s = self.T.new(name, 'base', 1 << 44, 1 << 60, None, key)
        r = Region(s, kind, name, lo, hi, unit, info)
        self.regions[s] = r
        return r

    def glob(self, name):
        if name in self.gsym:
            return self.gsym[name]
        m = self.mod
        if name in m.funcs:
            r = self.region('func', name, const(0), const(1), info=m.funcs[name])
        elif name in m.globals:
            G = m.globals[name]
            r = self.region('const' if G['const'] and not G['decl'] and G.get('ok', 1) else 'glob', name,
                            const(0), const(G['size']), info=G)
        else:
            r = self.region('func', name, const(0), const(1), info=None)
        self.gsym[name] = r
        return r

    def split_ptr(self, p):
        """(region, offset)"""
        b = None
        for s, k in p[1]:
            r = self.regions.get(s)
            if r is not None:
                if b is not None or k != 1:
                    raise Imprecise('pointer with several bases')
                b = r
        if b is None:
            return None, p
        return b, (p[0], tuple(x for x in p[1] if x[0] != b.sym))

    # ------------------------------------------------ operands
    def ev(self, st, o):
        k = o[0]
        if k == 'v':
            return st.frames[-1].env[o[1]]
        if k == 'i':
            return const(int(o[1]))
        if k == 'n':
            return const(0)
        if k == 'g':
            return addc(var(self.glob(o[1]).sym), o[2])
        if k == 'u':
            return UNDEF
        if k == 'z':
            t = o[1]
            if t[0] == '{':
                return ('agg', [self.ev(st, ['z', f[1]]) for f in struct_fields(t)])
            return const(0)
        if k == 'agg':
            return ('agg', [self.ev(st, x) for x in o[1]])
        if k == 'f':
            return ('fc', o[1])
        if k == 'ce':
            raise Imprecise('constant expression ' + o[1])
        raise Imprecise('operand ' + str(o))

    def lin(self, st, o, bits=None):
        v = self.ev(st, o)
        if v is UNDEF or v[0] == 'undef':
            s = self.fresh('undef', 0, (1 << (bits or 64)) - 1)
            return var(s)
        if v[0] in ('agg', 'fc', 'fl'):
            raise Imprecise('non-integer operand')
        return v

    def loc(self, i=None):
        i = i if i is not None else self.cur
        if i is None:
            return '?'
        return self.mod.locs[i[3]].replace('/repo/', '')

    def where(self, st):
        return self.loc() + ' in ' + st.frames[-1].fn.dem

    # ------------------------------------------------ main loop
    def run(self, states):
        """states: initial worklist; policy collects results"""
        saved = self.__dict__.get('work')
        work = self.work = list(states)
        try:
            self.run_work(work)
        finally:
            self.work = saved

    def run_work(self, work):
        while work:
            st = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Imprecise('path budget exceeded')
            try:
                self.run_path(st)
            except NeedSplit as e:
                n = 0
                for alt in e.alts:
                    s2 = st.copy()
                    if all(s2.num.refine(r) for r in alt):
                        work.append(s2)
                        n += 1
            except PathEnd:
                pass

    def run_path(self, st):
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.idx]
            self.cur = ins
            st.steps += 1
            self.steps += 1
            if st.steps > self.max_steps:
                raise Imprecise('step budget exceeded at ' + self.where(st))
            h = DISPATCH.get(ins[0])
            if h is None:
                h = Interp.i_other
            h(self, st, fr, ins)

    def goto(self, st, fr, target):
        prev = fr.blk
        loops = fr.fn.loops
        self.P.on_edge(self, st, fr, prev, target)
        self.visited.add((fr.fn.name, target))
        # evaluate phis in parallel
        dead = fr.fn.dead_phis
        vals = []
        n = 0
        for i in fr.fn.blocks[target]:
            if i[0] != 'phi':
                break
            n += 1
            if i[1] in dead:
                vals.append((i[1], UNDEF))
                continue
            for pb, o in i[4]:
                if pb == prev:
                    vals.append((i[1], self.ev(st, o)))
                    break
            else:
                raise Imprecise('phi without incoming edge')
        if target in loops:
            if prev not in loops[target] and fr.hits:
                # (re-)entering: reset counters of this loop
                fr.hits.pop(target, None)
            old = dict(fr.env)
            fr.env.update(vals)
            try:
                self.P.on_header(self, st, fr, target, prev)
            except NeedSplit:
                fr.env = old
                raise
            if fr.hits is None:
                fr.hits = {}
            c = fr.hits.get(target, 0) + 1
            if c > self.P.max_unroll:
                raise Imprecise('loop not bounded at ' + self.where(st))
            fr.hits[target] = c
        else:
            fr.env.update(vals)
        fr.prev = prev
        fr.blk = target
        fr.idx = n

    # ------------------------------------------------ instructions
    def i_br(self, st, fr, i):
        if len(i) > 5:
            c = self.lin(st, i[4], 1)
            t = st.num.eq0(st.num.norm(c, 1, False))
            self.goto(st, fr, i[6] if t else i[5])
        else:
            st.x['lb'] = i[3]
            self.goto(st, fr, i[4])

    def i_switch(self, st, fr, i):
        bits = tybits(i[7])
        v = st.num.norm(self.lin(st, i[4], bits), bits, False)
        l, h = st.num.rng(v)
        if l != h:
            # finite partition by the case labels
            labels = sorted(int(c) % (1 << bits) for c, _ in i[6])
            pts = [c for c in labels if l <= c <= h]
            if pts:
                lo, hi = 0, len(pts)
                # binary decision over the labels keeps alternatives small
                m = pts[len(pts) // 2]
                if st.num.ge0(addc(v, -m)):
                    st.num.ge0(addc(neg(v), m))
            for c, b in i[6]:
                if st.num.eq0(addc(v, -(int(c) % (1 << bits)))):
                    return self.goto(st, fr, b)
            return self.goto(st, fr, i[5])
        for c, b in i[6]:
            if (int(c) % (1 << bits)) == l:
                return self.goto(st, fr, b)
        self.goto(st, fr, i[5])

    def setv(self, st, fr, i, v):
        fr.env[i[1]] = v
        fr.idx += 1

    def i_icmp(self, st, fr, i):
        pred, ty = i[4], i[7]
        bits = tybits(ty)
        a = self.lin(st, i[5], bits)
        b = self.lin(st, i[6], bits)
        num = st.num
        if ty == 'ptr':
            r = self.cmp_ptr(st, pred, a, b)
        else:
            if pred in ('eq', 'ne'):
                d = sub(a, b)
                l, h = num.rng(d)
                m = 1 << bits
                if self.P.symbool and l < 0 < h + 1 or self.P.symbool and l == 0 < h:
                    t = self.symcmp(st, d if -m < l and h < m else sub(num.norm(a, bits, False), num.norm(b, bits, False)), pred)
                    if t is not None:
                        return self.setv(st, fr, i, t)
                if -m < l and h < m:
                    # could still be equal modulo 2^bits only when d == 0
                    r = num.eq0(d)
                else:
                    d = sub(num.norm(a, bits, False), num.norm(b, bits, False))
                    r = num.eq0(d)
                if pred == 'ne':
                    r = not r
            else:
                sg = pred[0] == 's'
                a = num.norm(a, bits, sg)
                b = num.norm(b, bits, sg)
                p = pred[1:]
                if self.P.symbool:
                    t = self.symcmp(st, sub(a, b), p)
                    if t is not None:
                        return self.setv(st, fr, i, t)
                r = self.cmpop(num, p, a, b)
        self.setv(st, fr, i, const(1 if r else 0))

    def symcmp(self, st, lin, p):
        """truth value of a comparison as a function of one finite unit symbol, or None"""
        l, h = st.num.rng(lin)
        if l > 0 or h < 0 or l == h or l < -(1 << 60) or h > 1 << 60:
            return None
        if p not in ('eq', 'ne') and (p in ('lt', 'ge') and l == 0 or p in ('gt', 'le') and h == 0):
            return None
        x = self.finsym(st, lin)
        if x is None:
            return None
        sy = self.T.syms[x]
        key = ('symcmp', p, lin)
        s = self.T.index.get(key)
        if s is None:
            try:
                v = st.num.evalvec(lin, {x: np.arange(sy.lo, sy.hi + 1, dtype=np.int64)})
            except Imprecise:
                return None
            v = np.broadcast_to(v, (sy.hi - sy.lo + 1,))
            v = {'eq': v == 0, 'ne': v != 0, 'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0}[p].astype(np.int64)
            s = self.T.new('cmp', 'num', 0, 1, ('tab', 'cmp', v, (-sy.lo, ((x, 1),))), key)
        l, h = st.num.srange(s)
        return const(l) if l == h else var(s)

    def finsym(self, st, *lins):
        """the only symbol, finite and small, that the forms depend on (None if there is none)"""
        bs = set()
        for a in lins:
            bs = st.num.base_syms(a, bs)
        if len(bs) != 1:
            return None
        x = next(iter(bs))
        sy = self.T.syms[x]
        return x if sy.kind == 'unit' and sy.hi - sy.lo <= 512 else None

    def cmpop(self, num, p, a, b):
        if p == 'lt':
            return not num.ge0(sub(a, b))
        if p == 'ge':
            return num.ge0(sub(a, b))
        if p == 'gt':
            return not num.ge0(sub(b, a))
        return num.ge0(sub(b, a))

    def cmp_ptr(self, st, pred, a, b):
        ra, _ = self.split_ptr(a)
        rb, _ = self.split_ptr(b)
        num = st.num
        if (ra is None) != (rb is None):
            o = b if ra is not None else a
            if is_const(o) and o[0] == 0:
                if pred in ('eq', 'ne'):
                    return pred == 'ne'
                big = ra is not None
                p = pred[1:]
                return big if p in ('gt', 'ge') else not big
            # unknown integer-like pointer against a region pointer
            if pred == 'eq':
                return False if is_const(o) else self.nondet(st, fr=None)
            raise Imprecise('pointer comparison')
        if ra is not None and ra is not rb:
            if pred in ('eq', 'ne'):
                return pred == 'ne'
            raise Imprecise('ordering of unrelated pointers')
        d = sub(a, b)
        if pred == 'eq':
            return num.eq0(d)
        if pred == 'ne':
            return not num.eq0(d)
        return self.cmpop(num, pred[1:], a, b)

    def nondet(self, st, fr=None):
        raise Imprecise('nondeterministic pointer comparison')

    def i_bin(self, st, fr, i):
        op = i[0]
        ty = i[2]
        bits = tybits(ty)
        if not bits:
            return self.setv(st, fr, i, ('fl', self.fresh_id()))
        a = self.lin(st, i[4][0], bits)
        b = self.lin(st, i[4][1], bits)
        num = st.num
        if op == 'add':
            if bits == 1:
                r = num.binop('xor', num.norm(a, 1, False), num.norm(b, 1, False), 1)
            else:
                r = add(a, b)
        elif op == 'sub':
            r = sub(a, b)
        elif op == 'mul':
            if is_const(a):
                r = mulc(b, a[0])
            elif is_const(b):
                r = mulc(a, b[0])
            else:
                r = self.mul_opaque(st, a, b, bits)
        elif op == 'shl':
            if is_const(b):
                r = mulc(a, 1 << (b[0] % (1 << 16)))
            else:
                r = self.P_opaque(st, 'shl', a, b, bits)
        elif op == 'lshr':
            if is_const(b):
                r = num.floordiv(num.norm(a, bits, False), 1 << b[0])
            else:
                r = self.P_opaque(st, 'lshr', a, b, bits)
        elif op == 'ashr':
            if not is_const(b):
                return self.setv(st, fr, i, var(self.fresh('ashr', 0, (1 << bits) - 1)))
            r = num.floordiv(num.norm(a, bits, True), 1 << b[0])
        elif op in ('and', 'or', 'xor'):
            if self.has_base(a) or self.has_base(b):
                raise Imprecise('bit operation on a pointer')
            r = num.binop(op, num.norm(a, bits, False), num.norm(b, bits, False), bits)
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            sg = op[0] == 's'
            an = num.norm(a, bits, sg)
            bn = num.norm(b, bits, sg)
            if not is_const(bn) or bn[0] <= 0:
                r = self.div_opaque(st, op, an, bn, bits)
            else:
                d = bn[0]
                if sg:
                    ex = all(k % d == 0 for _, k in an[1]) and an[0] % d == 0
                    if ex:
                        q = num.floordiv(an, d)
                    elif num.ge0(an):
                        q = num.floordiv(an, d)
                    else:
                        q = neg(num.floordiv(neg(an), d))
                else:
                    q = num.floordiv(an, d)
                r = q if op.endswith('div') else sub(an, mulc(q, d))
        else:
            raise Imprecise('opcode ' + op)
        self.setv(st, fr, i, r)

    def mul_opaque(self, st, a, b, bits):
        num = st.num
        ra, rb = num.rng(a), num.rng(b)
        if ra[0] == ra[1]:
            return mulc(b, ra[0])
        if rb[0] == rb[1]:
            return mulc(a, rb[0])
        if ra[0] >= 0 and rb[0] >= 0 and ra[1] * rb[1] < 1 << bits:
            key = ('mul', min(a, b), max(a, b), bits)
            s = self.T.new('mul', 'num', ra[0] * rb[0], ra[1] * rb[1], key, key)
            return var(s)
        return var(self.fresh('mul', 0, (1 << bits) - 1))

    def div_opaque(self, st, op, a, b, bits):
        num = st.num
        ra, rb = num.rng(a), num.rng(b)
        if ra[0] >= 0 and rb[0] > 0:
            if op.endswith('div'):
                return var(self.fresh('div', 0, ra[1] // rb[0]))
            return var(self.fresh('rem', 0, min(ra[1], rb[1] - 1)))
        return var(self.fresh('div', 0, (1 << bits) - 1))

    def P_opaque(self, st, op, a, b, bits):
        num = st.num
        an = num.norm(a, bits, False)
        bn = num.norm(b, bits, False)
        l, h = num.rng(bn)
        if l == h:
            return mulc(an, 1 << l) if op == 'shl' else num.floordiv(an, 1 << l)
        if h - l <= 8 and all(self.T.syms[s].kind == 'unit' for s in num.base_syms(bn)):
            num.ge0(addc(bn, -(l + h + 1) // 2))
        la, ha = num.rng(an)
        if op == 'lshr':
            return var(self.fresh('lshr', 0, ha >> l))
        return var(self.fresh('shl', 0, (1 << bits) - 1))

    def has_base(self, a):
        return any(s in self.regions for s, _ in a[1])

    def fresh_id(self):
        self.nfresh += 1
        return self.nfresh

    def i_cast(self, st, fr, i):
        op = i[0]
        fb = tybits(i[5])
        tb = tybits(i[2])
        v = self.ev(st, i[4][0])
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            if v is UNDEF or not isinstance(v[0], int):
                if op == 'freeze' or tb == 0:
                    return self.setv(st, fr, i, v if v is not UNDEF else var(self.fresh('undef', 0, (1 << 64) - 1)))
                return self.setv(st, fr, i, var(self.fresh('bits', 0, (1 << tb) - 1)))
            return self.setv(st, fr, i, v)
        if v is UNDEF:
            v = var(self.fresh('undef', 0, (1 << fb) - 1))
        if op in ('zext', 'sext'):
            r = st.num.norm(v, fb, op == 'sext')
        elif op == 'trunc':
            m = 1 << tb
            r = (v[0], tuple((s, k) for s, k in v[1] if k % m))
            if self.has_base(r):
                raise Imprecise('truncated pointer')
        else:
            raise Imprecise(op)
        self.setv(st, fr, i, r)

    def i_fpcast(self, st, fr, i):
        if i[0] in ('fptoui', 'fptosi'):
            b = tybits(i[2])
            return self.setv(st, fr, i, var(self.fresh('fpint', 0, (1 << b) - 1)))
        self.setv(st, fr, i, ('fl', self.fresh_id()))

    def i_fcmp(self, st, fr, i):
        self.setv(st, fr, i, var(self.fresh('fcmp', 0, 1, 'unit')))

    def i_select(self, st, fr, i):
        c = self.lin(st, i[4][0], 1)
        if self.P.symbool and c[1]:
            a, b = self.ev(st, i[4][1]), self.ev(st, i[4][2])
            if a is not UNDEF and b is not UNDEF and isinstance(a[0], int) and isinstance(b[0], int) and i[2] != 'ptr':
                c = st.num.norm(c, 1, False)
                l, h = st.num.rng(c)
                x = self.finsym(st, c, a, b) if l == 0 and h == 1 else None
                if x is not None:
                    sy = self.T.syms[x]
                    env = {x: np.arange(sy.lo, sy.hi + 1, dtype=np.int64)}
                    try:
                        v = np.where(st.num.evalvec(c, dict(env)) != 0, st.num.evalvec(a, dict(env)), st.num.evalvec(b, dict(env)))
                    except Imprecise:
                        v = None
                    if v is not None:
                        s = self.T.new('sel', 'num', int(v.min()), int(v.max()), ('tab', 'sel', v, (-sy.lo, ((x, 1),))), ('sel', c, a, b))
                        return self.setv(st, fr, i, var(s))
        z = st.num.eq0(st.num.norm(c, 1, False))
        self.setv(st, fr, i, self.ev(st, i[4][2 if z else 1]))

    def i_gep(self, st, fr, i):
        p = self.lin(st, i[4], 64)
        p = addc(p, i[5])
        for o, sc, ty in i[6]:
            b = tybits(ty)
            x = st.num.norm(self.lin(st, o, b), b, True)
            p = add(p, mulc(x, sc))
        self.setv(st, fr, i, p)

    def i_alloca(self, st, fr, i):
        n = self.lin(st, i[5], 64)
        size = mulc(n, i[4])
        depth = len(st.frames)
        key = ('alloca', fr.fn.name, i[1], depth, tuple(f.blk for f in st.frames[:-1]))
        r = self.region('cells', 'local@' + self.loc(i), const(0), size, key=key)
        st.mem[r.sym] = {}
        self.setv(st, fr, i, var(r.sym))

    # ---- memory
    dyn_bounds = None

    def bounds(self, st, reg, off, size, what):
        num = st.num
        rlo, rhi = reg.lo, reg.hi
        if self.dyn_bounds is not None and reg.kind in ('wlog', 'units'):
            rlo, rhi = self.dyn_bounds(st, reg)
        lo = sub(off, rlo)
        hi = sub(rhi, addc(off, size))
        if not num.implied(lo) or not num.implied(hi):
            # let constraints that are decidable by partitioning settle it
            self.P.on_oob(self, st, '%s of %d byte(s) at %s%s is not provably inside [%s, %s)' % (
                what, size, reg.name, num.fmt(off), num.fmt(rlo), num.fmt(rhi)))

    def i_load(self, st, fr, i):
        p = self.lin(st, i[4], 64)
        self.setv(st, fr, i, self.load(st, p, i[2], i[5]))

    def load(self, st, p, ty, size):
        reg, off = self.split_ptr(p)
        if reg is None:
            raise Violation('null', 'load through a non-object pointer ' + st.num.fmt(p))
        bits = tybits(ty)
        if ty[0] == '{':
            return ('agg', [self.load(st, addc(p, o), t, tysize(t)) for o, t in struct_fields(ty)])
        if ty[0] == '[':
            raise Imprecise('array load')
        k = reg.kind
        if k == 'units':
            self.bounds(st, reg, off, size, 'read')
            st.reads += 1
            if size != reg.unit:
                return var(self.fresh('wide', 0, (1 << bits) - 1))
            return self.unit(st, p, reg)
        if k == 'const':
            return self.load_const(st, reg, off, ty, size)
        if k == 'opaque':
            # unknown object: vtable pointer at 0
            if is_const(off) and off[0] == 0 and ty == 'ptr':
                v = self.region('vtbl', 'vtable(%s)' % reg.name, const(0), const(1 << 20), info=reg, key=('vtbl', reg.sym))
                return var(v.sym)
            return self.P.lazy_field(self, st, reg, off, ty)
        if k == 'vtbl':
            v = self.region('vfunc', 'vfunc', const(0), const(1), info=(reg.info, off[0]), key=('vf', reg.sym, off[0]))
            return var(v.sym)
        if k in ('cells', 'glob', 'obj'):
            if not is_const(off):
                l, h = st.num.rng(off)
                if l == h:
                    off = const(l)
                else:
                    self.bounds(st, reg, off, size, 'read')
                    return self.P_symload(st, reg, off, ty, size)
            self.bounds(st, reg, off, size, 'read')
            cells = st.mem.setdefault(reg.sym, {})
            c = cells.get(off[0])
            if c is not None and c[0] == size:
                return c[1]
            ov = [(o, x) for o, x in cells.items() if o < off[0] + size and o + x[0] > off[0]]
            if ov:
                return self.load_partial(st, cells, off[0], ty, size, ov)
            return self.read_uninit(st, reg, off[0], ty, size, cells)
        if k == 'wlog':
            self.bounds(st, reg, off, size, 'read')
            return var(self.fresh('dstread', 0, (1 << bits) - 1))
        raise Imprecise('load from ' + k)

    def P_symload(self, st, reg, off, ty, size):
        bits = tybits(ty)
        if not bits:
            return ('fl', self.fresh_id())
        if ty == 'ptr':
            raise Imprecise('pointer load at symbolic offset')
        return var(self.fresh('ld', 0, (1 << bits) - 1))

    def load_partial(self, st, cells, off, ty, size, ov):
        bits = tybits(ty)
        # assemble from constant integers
        b = {}
        for o, (sz, v) in ov:
            if isinstance(v[0], int) and not v[1]:
                for j in range(sz):
                    b[o + j] = (v[0] >> (8 * j)) & 255
        if all(off + j in b for j in range(size)):
            return const(sum(b[off + j] << (8 * j) for j in range(size)))
        if bits and ty != 'ptr':
            # concatenation of slices of the cells; bytes never written are arbitrary
            acc = const(0)
            pos = off
            end = off + size
            byo = dict(ov)
            while pos < end:
                o = next((q for q in byo if q <= pos < q + byo[q][0]), None)
                if o is None:
                    nx = min([q for q in byo if q > pos] + [end])
                    acc = add(acc, var(self.fresh('pad', 0, (1 << (8 * (nx - pos))) - 1), 1 << (8 * (pos - off))))
                    pos = nx
                    continue
                sz, v = byo[o]
                n = min(o + sz, end) - pos
                if not isinstance(v[0], int):
                    x = var(self.fresh('mix', 0, (1 << (8 * n)) - 1))
                else:
                    x = st.num.norm(v, 8 * sz, False)
                    if pos > o:
                        x = st.num.floordiv(x, 1 << (8 * (pos - o)))
                    if n < o + sz - pos:
                        x = st.num.norm(x, 8 * n, False)
                if n == size:
                    return (x[0], x[1])
                acc = add(acc, mulc(x, 1 << (8 * (pos - off))))
                pos += n
            return acc
        if ty == 'ptr':
            raise Imprecise('partially overwritten pointer')
        return ('fl', self.fresh_id())

    def read_uninit(self, st, reg, off, ty, size, cells):
        if reg.name.startswith('_ZGV'):     # guard of a function static: starts at zero
            v = const(0)
        elif reg.kind == 'obj' or reg.kind == 'glob':
            v = self.P.lazy_field(self, st, reg, off, ty)
        else:
            v = UNDEF if not tybits(ty) else var(self.fresh('uninit', 0, (1 << tybits(ty)) - 1))
        cells[off] = (size, v)
        return v

    def load_const(self, st, reg, off, ty, size):
        raw, rel = self.mod.gbytes(reg.name)
        bits = tybits(ty)
        l, h = st.num.rng(off)
        if l == h:
            o = l
            if o < 0 or o + size > len(raw):
                self.P.on_oob(self, st, 'read of %d byte(s) at offset %d of constant %s (size %d)' % (size, o, reg.info['dem'], len(raw)))
                return var(self.fresh('oob', 0, (1 << bits) - 1))
            if ty == 'ptr':
                if o in rel:
                    s, a = rel[o]
                    return addc(var(self.glob(s).sym), a)
                return const(int.from_bytes(raw[o:o + 8], 'little'))
            if not bits:
                return ('fc', str(int.from_bytes(raw[o:o + size], 'little')))
            return const(int.from_bytes(raw[o:o + size], 'little'))
        self.bounds(st, reg, off, size, 'read')
        if ty == 'ptr':
            return self.const_ptr_sym(st, reg, off, raw, rel)
        if not bits:
            return ('fl', self.fresh_id())
        # symbolic index: off = c + g*idx
        g = 0
        from dom import gcd
        for _, k in off[1]:
            g = gcd(g, k)
        g = abs(g)
        c0 = off[0] % g
        idx = (off[0] // g, tuple((s, k // g) for s, k in off[1]))
        n = (len(raw) - c0 - size) // g + 1
        if n <= 0:
            raise Imprecise('table index')
        key = ('tabv', reg.sym, c0, g, size)
        if key not in self.__dict__.setdefault('_tabs', {}):
            self._tabs[key] = np.array([int.from_bytes(raw[c0 + g * j:c0 + g * j + size], 'little') if size < 8 else
                                        min(int.from_bytes(raw[c0 + g * j:c0 + g * j + size], 'little'), (1 << 62)) for j in range(n)], dtype=np.int64)
        arr = self._tabs[key]
        if size == 8 and int(arr.max()) >= 1 << 62:
            return var(self.fresh('tab64', 0, (1 << 64) - 1))
        s = self.T.new('%s[]' % reg.name[-24:], 'num', 0, (1 << bits) - 1, ('tab', reg.name, arr, idx), ('tab', reg.sym, c0, g, size, idx))
        return var(s)

    def const_ptr_sym(self, st, reg, off, raw, rel):
        # partition over the (few) slots
        l, h = st.num.rng(off)
        st.num.ge0(addc(off, -((l + h + 1) // 2)))
        raise Imprecise('pointer table at symbolic index')

    def unit(self, st, p, reg):
        hi = (1 << (8 * reg.unit)) - 1
        num = st.num
        for q, s in st.units:
            if q == p or not num.renorm(sub(q, p))[1] and num.renorm(sub(q, p))[0] == 0:
                return var(s)
        p = num.renorm(p)
        s = self.T.new('u[%s]' % num.fmt(p), 'unit', 0, hi, None, ('unit', p))
        st.units = st.units + ((p, s),)
        return var(s)

    def i_store(self, st, fr, i):
        v = self.ev(st, i[4])
        p = self.lin(st, i[5], 64)
        self.store(st, p, v, i[6], i[7])
        fr.idx += 1

    def store(self, st, p, v, ty, size):
        reg, off = self.split_ptr(p)
        if reg is None:
            raise Violation('null', 'store through a non-object pointer ' + st.num.fmt(p))
        if self.P.on_store(self, st, reg, p, size, v):
            return
        if ty[0] == '{' and v is not UNDEF and v[0] == 'agg':
            for (o, t), x in zip(struct_fields(ty), v[1]):
                self.store(st, addc(p, o), x, t, tysize(t))
            return
        k = reg.kind
        if k == 'wlog':
            self.bounds(st, reg, off, size, 'write')
            st.writes = st.writes + ((p, size, v),)
            return
        if k in ('cells', 'glob', 'obj'):
            if not is_const(off):
                l, h = st.num.rng(off)
                if l == h:
                    off = const(l)
                else:
                    self.bounds(st, reg, off, size, 'write')
                    cells = st.mem.setdefault(reg.sym, {})
                    for o in [o for o, x in cells.items() if o < h + size and o + x[0] > l]:
                        sz = cells[o][0]
                        cells[o] = (sz, var(self.fresh('havoc', 0, (1 << (8 * sz)) - 1)))
                    return
            self.bounds(st, reg, off, size, 'write')
            cells = st.mem.setdefault(reg.sym, {})
            o0 = off[0]
            for o in [o for o, x in cells.items() if o < o0 + size and o + x[0] > o0 and (o != o0 or x[0] != size)]:
                sz, old = cells.pop(o)
                # keep the untouched bytes of constants
                if isinstance(old[0], int) and not old[1]:
                    for j in range(sz):
                        if not (o0 <= o + j < o0 + size):
                            cells[o + j] = (1, const((old[0] >> (8 * j)) & 255))
                elif form(old) and sz <= 16 and not any(s in self.regions for s, _ in old[1]):
                    try:
                        if o < o0:
                            cells[o] = (o0 - o, self.load_partial(st, {}, o, 'i%d' % (8 * (o0 - o)), o0 - o, [(o, (sz, old))]))
                        if o + sz > o0 + size:
                            e = o0 + size
                            cells[e] = (o + sz - e, self.load_partial(st, {}, e, 'i%d' % (8 * (o + sz - e)), o + sz - e, [(o, (sz, old))]))
                    except Imprecise:
                        pass
            cells[o0] = (size, v)
            return
        if k in ('units', 'const', 'func', 'vtbl', 'opaque'):
            raise Violation('const-write', 'write to read-only %s %s' % (k, reg.name))
        raise Imprecise('store to ' + k)

    # ---- calls
    def i_call(self, st, fr, i):
        callee, args = i[4], i[5]
        if callee[0] == 'g' and callee[1].startswith('llvm.'):
            return self.intrinsic(st, fr, i, callee[1], args)
        f = self.ev(st, callee)
        if f is UNDEF or not isinstance(f[0], int):
            raise Imprecise('call of undef')
        reg, off = self.split_ptr(f)
        vals = [(self.ev(st, a[0]), a[1], a[2]) for a in args]
        if reg is None:
            raise Violation('null', 'call through a null or unknown function pointer')
        if reg.kind == 'vfunc':
            obj, slot = reg.info
            r = self.P.on_vcall(self, st, obj, slot, vals, i[2])
            return self.finish_call(st, fr, i, r)
        if reg.kind != 'func':
            raise Imprecise('call of ' + reg.kind)
        fn = reg.info
        r = self.builtin(st, reg.name, vals, i)
        if r is not None:
            return self.finish_call(st, fr, i, r)
        if fn is None or fn.decl:
            lib = self.mod.funcs.get('sa_lib_' + reg.name)
            if lib is not None and not lib.decl:   # the harness models this library function
                self.push(st, lib, [v[0] for v in vals][:len(lib.args)], i[1])
                return
            r = self.P.on_extern(self, st, reg.name, vals, i[2])
            if r is DESCENDED:
                return
            return self.finish_call(st, fr, i, r)
        r = self.P.on_call(self, st, fn, vals)
        if r is DESCENDED:
            return
        if r is not None:
            return self.finish_call(st, fr, i, r)
        if len(st.frames) > 60:
            raise Imprecise('call depth at ' + self.where(st))
        self.push(st, fn, [v[0] for v in vals], i[1])
        self.visited.add((fn.name, 0))

    def finish_call(self, st, fr, i, r):
        if i[1] >= 0:
            fr.env[i[1]] = r if r is not None and r != () else UNDEF
        if i[0] == 'invoke':
            self.goto(st, fr, i[6])
        else:
            fr.idx += 1

    def push(self, st, fn, vals, retid):
        nf = Frame(fn, retid)
        for k, (a, v) in enumerate(zip(fn.args, vals)):
            if a[1].startswith('byval:') and v is not UNDEF:
                v = self.byval_copy(st, fn, k, v, a[1][6:])
            nf.env[k] = v
        st.frames.append(nf)

    def byval_copy(self, st, fn, k, v, ty):
        reg, off = self.split_ptr(v)
        size = self.agg_size(ty)
        key = ('byval', fn.name, k, len(st.frames), tuple(f.blk for f in st.frames))
        r = self.region('cells', 'byval', const(0), const(size), key=key)
        st.mem[r.sym] = {}
        self.copy_mem(st, var(r.sym), v, const(size))
        return var(r.sym)

    def agg_size(self, ty):
        # upper bound of the aggregate's size: last field offset + its size
        if ty[0] == '{':
            m = 0
            for o, t in struct_fields(ty):
                m = max(m, o + self.agg_size(t))
            return m
        if ty[0] == '[':
            n, rest = ty[1:].split('x', 1)
            sz = int(rest.split(':', 1)[0])
            return int(n) * sz
        return tysize(ty)

    def i_ret(self, st, fr, i):
        v = self.ev(st, i[4][0]) if i[4] else None
        if len(st.frames) == 1:
            st.ret = v
            self.P.on_return(self, st)
            raise PathEnd()
        st.frames.pop()
        for k in fr.fn.alloca_ids():
            a = fr.env.get(k)
            if a is not None and a is not UNDEF and len(a[1]) == 1:
                st.mem.pop(a[1][0][0], None)
        self.P.on_pop(self, st)
        cf = st.frames[-1]
        ci = cf.fn.blocks[cf.blk][cf.idx]
        if fr.retid >= 0:
            cf.env[fr.retid] = v
        if ci[0] == 'invoke':
            self.goto(st, cf, ci[6])
        else:
            cf.idx += 1

    def i_unreachable(self, st, fr, i):
        raise PathEnd()

    def i_extractvalue(self, st, fr, i):
        v = self.ev(st, i[4])
        for k in i[5]:
            if v is UNDEF or v[0] != 'agg':
                v = UNDEF
                break
            v = v[1][k]
        self.setv(st, fr, i, v)

    def i_insertvalue(self, st, fr, i):
        a = self.ev(st, i[4])
        v = self.ev(st, i[5])
        n = len(struct_fields(i[7]))

        def ins(a, path, ty):
            fs = struct_fields(ty)
            lst = list(a[1]) if a is not UNDEF and a[0] == 'agg' else [UNDEF] * len(fs)
            if len(path) == 1:
                lst[path[0]] = v
            else:
                lst[path[0]] = ins(lst[path[0]], path[1:], fs[path[0]][1])
            return ('agg', lst)
        self.setv(st, fr, i, ins(a, i[6], i[7]))

    def i_other(self, st, fr, i):
        if i[0] in ('fence',):
            fr.idx += 1
            return
        raise Imprecise('opcode %s at %s' % (i[0], self.where(st)))

    def i_fneg(self, st, fr, i):
        self.setv(st, fr, i, ('fl', self.fresh_id()))

    def intrinsic(self, st, fr, i, name, args):
        num = st.num
        r = ()
        if name.startswith(('llvm.expect', 'llvm.annotation')):
            r = self.ev(st, args[0][0])
        elif name.startswith('llvm.assume'):
            c = self.lin(st, args[0][0], 1)
            if num.eq0(num.norm(c, 1, False)):
                raise PathEnd()
        elif name.startswith(('llvm.memcpy', 'llvm.memmove')):
            d = self.lin(st, args[0][0])
            s = self.lin(st, args[1][0])
            n = num.norm(self.lin(st, args[2][0]), 64, False)
            self.copy_mem(st, d, s, n)
        elif name.startswith('llvm.memset'):
            d = self.lin(st, args[0][0])
            n = num.norm(self.lin(st, args[2][0]), 64, False)
            self.set_mem(st, d, self.lin(st, args[1][0]), n)
        elif name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            b = tybits(i[2])
            sg = name[5] == 's'
            x = num.norm(self.lin(st, args[0][0], b), b, sg)
            y = num.norm(self.lin(st, args[1][0], b), b, sg)
            ge = num.ge0(sub(x, y))
            r = (x if ge else y) if 'max' in name[:10] else (y if ge else x)
        elif name.startswith('llvm.abs'):
            b = tybits(i[2])
            x = num.norm(self.lin(st, args[0][0], b), b, True)
            r = x if num.ge0(x) else neg(x)
        elif name.startswith(('llvm.ctlz', 'llvm.cttz', 'llvm.ctpop')):
            b = tybits(i[2])
            x = num.norm(self.lin(st, args[0][0], b), b, False)
            r = self.bitcount(st, name, x, b)
        elif name.startswith(('llvm.trap', 'llvm.ubsantrap')):
            raise PathEnd()
        elif name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.experimental', 'llvm.va_', 'llvm.stack', 'llvm.invariant', 'llvm.donothing', 'llvm.prefetch')):
            r = UNDEF
        elif '.with.overflow' in name:
            b = tybits(args[0][1])
            x = num.norm(self.lin(st, args[0][0], b), b, name[5] == 's')
            y = num.norm(self.lin(st, args[1][0], b), b, name[5] == 's')
            if 'add' in name:
                v = add(x, y)
            elif 'sub' in name:
                v = sub(x, y)
            else:
                v = mulc(x, y[0]) if is_const(y) else mulc(y, x[0]) if is_const(x) else None
            if v is None:
                r = ('agg', [var(self.fresh('mulov', 0, (1 << b) - 1)), var(self.fresh('ov', 0, 1, 'unit'))])
            else:
                base = -(1 << (b - 1)) if name[5] == 's' else 0
                ok = num.ge0(addc(v, -base)) and num.ge0(addc(neg(v), base + (1 << b) - 1))
                r = ('agg', [v, const(0 if ok else 1)])
        elif tybits(i[2]) == 0:
            r = ('fl', self.fresh_id()) if i[2] != 'void' else ()
        else:
            raise Imprecise('intrinsic ' + name)
        self.finish_call(st, fr, i, r)

    def bitcount(self, st, name, x, b):
        l, h = st.num.rng(x)
        if 'ctlz' in name:
            return var(self.fresh('ctlz', b - h.bit_length(), b - max(l, 0).bit_length()))
        if 'cttz' in name:
            if is_const(x):
                return const((x[0] & -x[0]).bit_length() - 1 if x[0] else b)
            lo = 0
            while lo < b and all(k % (2 << lo) == 0 for _, k in x[1]) and x[0] % (2 << lo) == 0:
                lo += 1
            hi = b
            for m in range(lo + 1, b + 1):
                # the part below 2^m is not zero and does not carry out of it
                rl, rh = st.num.rng((x[0] % (1 << m), tuple((s, k) for s, k in x[1] if k % (1 << m))))
                if 0 < rl and rh < 1 << m:
                    hi = min(m - 1, (rh & -rh).bit_length() - 1 if rl == rh else rh.bit_length() - 1)
                    break
            else:
                if l > 0:
                    hi = h.bit_length() - 1
            return const(lo) if lo == hi else var(self.fresh('cttz', lo, hi))
        return var(self.fresh('bitc', 0, b))

    def copy_mem(self, st, d, s, n):
        num = st.num
        l, h = num.rng(n)
        if h == 0:
            return
        dr, do = self.split_ptr(d)
        sr, so = self.split_ptr(s)
        do = self.single(st, do)
        so = self.single(st, so)
        if dr is None or sr is None:
            # memcpy(x, null, 0) is the only legal form
            if not num.ge0(addc(n, -1)):
                return
            raise Violation('null', 'memory copy through a null pointer')
        if l == h and l <= 512 and dr.kind in ('cells', 'obj', 'glob') and is_const(do):
            if sr.kind in ('cells', 'obj', 'glob') and is_const(so):
                self.bounds(st, sr, so, l, 'read')
                self.bounds(st, dr, do, l, 'write')
                src = st.mem.setdefault(sr.sym, {})
                cells = [(o, x) for o, x in src.items() if so[0] <= o and o + x[0] <= so[0] + l]
                if sr.kind in ('obj', 'glob'):
                    self.P_touch(st, sr, so[0], l)
                    cells = [(o, x) for o, x in src.items() if so[0] <= o and o + x[0] <= so[0] + l]
                # objects only partly inside the copied range
                for o, x in list(src.items()):
                    b, e = max(o, so[0]), min(o + x[0], so[0] + l)
                    if b < e and (b, e) != (o, o + x[0]) and form(x[1]):
                        cells.append((b, (e - b, self.load_partial(st, src, b, 'i%d' % (8 * (e - b)), e - b, [(o, x)]))))
                dst = st.mem.setdefault(dr.sym, {})
                for o in [o for o, x in dst.items() if o < do[0] + l and o + x[0] > do[0]]:
                    del dst[o]
                for o, x in cells:
                    dst[o - so[0] + do[0]] = x
                return
            if sr.kind == 'const' and is_const(so):
                raw, rel = self.mod.gbytes(sr.name)
                self.bounds(st, sr, so, l, 'read')
                self.bounds(st, dr, do, l, 'write')
                dst = st.mem.setdefault(dr.sym, {})
                for o in [o for o, x in dst.items() if o < do[0] + l and o + x[0] > do[0]]:
                    del dst[o]
                j = 0
                while j < l:
                    if so[0] + j in rel:
                        sy, a = rel[so[0] + j]
                        dst[do[0] + j] = (8, addc(var(self.glob(sy).sym), a))
                        j += 8
                    else:
                        dst[do[0] + j] = (1, const(raw[so[0] + j]))
                        j += 1
                return
        self.copy_range(st, dr, d, do, sr, s, so, n)

    def single(self, st, f):
        if f[1]:
            l, h = st.num.rng(f)
            if l == h:
                return const(l)
        return f

    def P_touch(self, st, reg, off, n):
        pass

    def copy_range(self, st, dr, d, do, sr, s, so, n):
        """symbolic-length or array copy"""
        num = st.num
        if num.ge0(addc(n, -1)):
            self.bounds_range(st, sr, so, n, 'read')
            self.bounds_range(st, dr, do, n, 'write')
            if dr.kind == 'wlog' or sr.kind == 'units':
                st.writes = st.writes + ((d, n, ('copy', s)),)
            if dr.kind == 'wlog':
                pass
            elif dr.kind in ('cells', 'obj', 'glob'):
                self.havoc_range(st, dr, do, n)
            else:
                raise Violation('const-write', 'copy into read-only ' + dr.name)

    def set_mem(self, st, d, v, n):
        num = st.num
        l, h = num.rng(n)
        if h == 0:
            return
        dr, do = self.split_ptr(d)
        do = self.single(st, do)
        v = self.single(st, v)
        if dr is None:
            if not num.ge0(addc(n, -1)):
                return
            raise Violation('null', 'memory fill through a null pointer')
        if dr.kind in ('cells', 'obj', 'glob') and is_const(do) and l == h and l <= 4096:
            self.bounds(st, dr, do, l, 'write')
            dst = st.mem.setdefault(dr.sym, {})
            for o in [o for o, x in dst.items() if o < do[0] + l and o + x[0] > do[0]]:
                del dst[o]
            if l <= 512:
                x = const(v[0] & 255) if is_const(v) else num.norm(v, 8, False)
                for j in range(l):
                    dst[do[0] + j] = (1, x)
            return
        if num.ge0(addc(n, -1)):
            self.bounds_range(st, dr, do, n, 'write')
            if dr.kind == 'wlog':
                st.writes = st.writes + ((d, n, ('fill', v)),)
            else:
                self.havoc_range(st, dr, do, n)

    def havoc_range(self, st, dr, do, n):
        cells = st.mem.setdefault(dr.sym, {})
        l, _ = st.num.rng(do)
        end = add(do, n)
        _, h = st.num.rng(end)
        for o in [o for o, x in cells.items() if o < h and o + x[0] > l]:
            sz = cells[o][0]
            if st.num.implied(addc(do, -(o + sz))) or st.num.implied(addc(neg(end), o)):
                continue
            cells[o] = (sz, var(self.fresh('havoc', 0, (1 << (8 * sz)) - 1)))

    def bounds_range(self, st, reg, off, n, what):
        num = st.num
        rlo, rhi = reg.lo, reg.hi
        if self.dyn_bounds is not None and reg.kind in ('wlog', 'units'):
            rlo, rhi = self.dyn_bounds(st, reg)
        if reg.kind == 'func' or not (num.implied(sub(off, rlo)) and num.implied(sub(sub(rhi, off), n))):
            self.P.on_oob(self, st, '%s of %s byte(s) at %s%s is not provably inside [%s, %s)' % (
                what, num.fmt(n), reg.name, num.fmt(off), num.fmt(rlo), num.fmt(rhi)))

    def builtin(self, st, name, vals, i):
        if name in ('memcpy', 'memmove'):
            self.copy_mem(st, vals[0][0], vals[1][0], st.num.norm(vals[2][0], 64, False))
            return vals[0][0]
        if name == 'memset':
            self.set_mem(st, vals[0][0], vals[1][0], st.num.norm(vals[2][0], 64, False))
            return vals[0][0]
        if name in ('wmemcpy', 'wmemmove'):
            self.copy_mem(st, vals[0][0], vals[1][0], st.num.norm(mulc(vals[2][0], 4), 64, False))
            return vals[0][0]
        if name == 'wmemset':
            n = st.num.norm(vals[2][0], 64, False)
            l, h = st.num.rng(n)
            dr, do = self.split_ptr(vals[0][0])
            do = self.single(st, do)
            if dr is not None and dr.kind in ('cells', 'obj', 'glob') and is_const(do) and l == h and l <= 1024:
                if l:
                    self.bounds(st, dr, do, 4 * l, 'write')
                dst = st.mem.setdefault(dr.sym, {})
                for o in [o for o, x in dst.items() if o < do[0] + 4 * l and o + x[0] > do[0]]:
                    del dst[o]
                x = st.num.norm(vals[1][0], 32, False)
                for j in range(l):
                    dst[do[0] + 4 * j] = (4, x)
            else:
                self.set_mem(st, vals[0][0], vals[1][0], st.num.norm(mulc(vals[2][0], 4), 64, False))
            return vals[0][0]
        if name == '__cxa_guard_acquire':
            return const(1)
        if name == '__cxa_guard_release':
            dr, do = self.split_ptr(vals[0][0])
            st.mem.setdefault(dr.sym, {})[0] = (1, const(1))
            return const(0)
        if name in ('__cxa_guard_abort', '__cxa_atexit'):
            return const(0)
        if name in ('__cxa_allocate_exception', '__cxa_throw', '_ZSt9terminatev', 'abort', '__assert_fail', '__clang_call_terminate'):
            raise PathEnd()
        return None


DISPATCH = {
    'br': Interp.i_br, 'switch': Interp.i_switch, 'icmp': Interp.i_icmp, 'select': Interp.i_select,
    'getelementptr': Interp.i_gep, 'alloca': Interp.i_alloca, 'load': Interp.i_load, 'store': Interp.i_store,
    'call': Interp.i_call, 'invoke': Interp.i_call, 'ret': Interp.i_ret, 'unreachable': Interp.i_unreachable,
    'extractvalue': Interp.i_extractvalue, 'insertvalue': Interp.i_insertvalue, 'fcmp': Interp.i_fcmp,
    'fneg': Interp.i_fneg,
}
for _o in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem'):
    DISPATCH[_o] = Interp.i_bin
for _o in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
    DISPATCH[_o] = Interp.i_cast
for _o in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
    DISPATCH[_o] = Interp.i_fpcast
