"""Transcoder analysis: lock-step abstract interpretation of a transcode /
transcode_size function against the specification automaton.

Loops are cut at their headers.  At a cut the concrete cursor, output position
and counters are replaced by relations to the specification's state (L: source
units left, R: output room left); candidate relations are inferred at the first
arrival and weakened until inductive (Houdini).  Between two cuts, and between a
cut and a return, the source units are partitioned into value classes and the
function's effect on each class must equal the specification's."""
from dom import NeedSplit, Imprecise, const, var, add, sub, mulc, addc, neg, is_const, gcd
from interp import Interp, Policy, PathEnd, Violation, State, UNDEF
import charsets

COMPLETED, INSUFF, UNSUP, INVALID = 0, 1, 2, 3
RNAME = ['completed', 'insufficient_output_space', 'unsupported_codepoint', 'invalid_sequence']


import os
H_REPO = os.environ.get('STRF_REPO', '/repo') + '/'


class Enough(Exception):
    pass


class Restart(Exception):
    pass


class Acc:
    """what the specification may look at: units, availability, comparisons"""

    def __init__(self, P, I, st, L):
        self.P, self.I, self.st, self.L = P, I, st, L
        self.num = st.num

    def u(self, j):
        p = add(var(self.P.E.sym), mulc(addc(self.L, -j), -self.P.us))
        return self.I.unit(self.st, p, self.P.E)

    def avail(self, j):
        return self.num.ge0(addc(self.L, -(j + 1)))

    def ge(self, a, c):
        return self.num.ge0(addc(a, -c))

    def eq(self, a, c):
        return self.num.eq0(addc(a, -c))

    def flag(self, k):
        return not self.num.eq0(var(self.P.flags[k]))


def equal_mod(num, a, b, bits):
    m = 1 << bits
    d = num.renorm(sub(a, b))
    half = m >> 1

    def red(c):
        c %= m
        return c - m if c >= half else c
    d = (red(d[0]), tuple((s, red(k)) for s, k in d[1] if red(k)))
    if not d[1]:
        return d[0] % m == 0
    l, h = num.rng(d)
    if (l + m - 1) // m > h // m:
        return False
    return None, d


class TPolicy(Policy):
    def __init__(self, src, dst, us, ws, mode, unsafe, notif, scfg, strict=False):
        self.strict = strict
        self.stepwise = False
        self.bounded = None
        self.forget = True
        self.memo = {}
        self.tagno = {}
        self.src, self.dst = src, dst
        self.us, self.ws = us, ws
        self.mode = mode
        self.unsafe = unsafe
        self.notif = notif
        self.ctx = {}        # key -> list of contexts (numeric)
        self.tmpl = {}       # header key -> template
        self.choice = {}
        self.findings = []
        self.stats = dict(segments=0, returns=0, cuts=0, reads=0, writes=0, cells=0, restarts=0, events=0)
        self.scfg = scfg

    # ------------------------------------------------------------ set-up
    def start(self, I, entry):
        T = I.T
        self.I = I
        self.L0 = T.new('L0', 'len', 0, 1 << 40)
        self.R0 = T.new('room0', 'len', 0, (1 << 40) if self.mode == 'tr' else (1 << 62))
        self.flags = [T.new(n, 'unit', 0, 1) for n in ('lax', 'stop_inv', 'stop_unsup')]
        self.E = I.region('units', 'src_end', mulc(var(self.L0), -self.us), const(0), self.us, key='E')
        self.ret = I.region('obj', 'ret', const(0), const(24), key='ret')
        st = State(T)
        E = var(self.E.sym)
        args = [var(self.ret.sym), add(E, mulc(var(self.L0), -self.us)), E]
        if self.mode == 'tr':
            self.D = I.region('wlog', 'dst_end', mulc(var(self.R0), -self.ws), const(0), self.ws, key='D')
            D = var(self.D.sym)
            args += [add(D, mulc(var(self.R0), -self.ws)), D]
            if self.notif:
                self.N = I.region('opaque', 'err_notifier', const(0), const(8), key='N')
                args.append(var(self.N.sym))
            else:
                args.append(const(0))
        else:
            args.append(var(self.R0))
        fl = add(add(var(self.flags[0]), var(self.flags[1], 2)), var(self.flags[2], 4))
        args.append(fl)
        I.push(st, entry, args, -1)
        st.x = {'L': var(self.L0), 'R': var(self.R0), 'pre': self.unsafe, 'seg': 'entry'}
        if self.strict:
            for f in self.flags:
                st.num.box[f] = (0, 0)
        if self.bounded is not None:
            a, b = self.bounded
            st.num.box[self.L0] = (a, a)
            st.num.box[self.R0] = (b, b)
            st.x['L'], st.x['R'] = const(a), const(b)
            self.E.lo = const(-self.us * a)
            E = var(self.E.sym)
            fr = st.frames[0]
            fr.env[1] = add(E, const(-self.us * a))
            if self.mode == 'tr':
                self.D.lo = const(-self.ws * b)
                fr.env[3] = add(var(self.D.sym), const(-self.ws * b))
            else:
                fr.env[3] = const(b)
        return st

    def run_bounded(self, mod, entry, Lmax, Rmax, budget=60.0):
        """all lengths up to the bound, loops followed exactly (no relation inference)"""
        import time
        t0 = time.time()
        fn = mod.funcs[entry]
        self.stats.update(segments=0, returns=0, cuts=0, events=0)
        self.forget = True
        self.findings = []
        self.memo = {}
        I = Interp(mod, self, **self.scfg)
        I.max_paths = 10 ** 9
        done = []
        try:
            for a in range(Lmax + 1):
                for b in range(Rmax + 1):
                    self.bounded = (a, b)
                    I.work = [self.start(I, fn)]
                    try:
                        self.drive(I)
                    except Enough:
                        pass
                    if self.findings and self.forget:
                        # confirm without any forgetting
                        self.forget = False
                        self.findings = []
                        self.memo = {}
                        I = Interp(mod, self, **self.scfg)
                        I.max_paths = 10 ** 9
                        I.work = [self.start(I, fn)]
                        try:
                            self.drive(I)
                        except Enough:
                            pass
                    done.append((a, b))
                    if self.findings or time.time() - t0 > budget:
                        return self.findings, done
        finally:
            self.bounded = None
        return self.findings, done

    def run(self, mod, entry):
        fn = mod.funcs[entry]
        for attempt in range(40):
            I = Interp(mod, self, **self.scfg)
            self.ctx = {}
            self.findings = []
            self.stats.update(segments=0, returns=0, cuts=0, events=0)
            try:
                st = self.start(I, fn)
                I.work = [st]
                self.drive(I)
                self.stats['paths'] = I.paths
                self.stats['steps'] = I.steps
                self.visited = I.visited
                return self.findings
            except Restart:
                self.stats['restarts'] += 1
                continue
        raise Imprecise('relations do not stabilise')

    def drive(self, I):
        while I.work:
            st = I.work.pop()
            I.paths += 1
            if I.paths > I.max_paths:
                raise Imprecise('path budget exceeded')
            try:
                v = st.x.get('viol')
                if v is not None:
                    self.all_valid(I, st)
                    self.report(I, st, *v)
                    continue
                if st.x.get('pre'):
                    self.assume_valid(I, st)
                I.run_path(st)
            except NeedSplit as e:
                for alt in e.alts:
                    s2 = st.copy()
                    if all(s2.num.refine(r) for r in alt) and self.unalias(s2):
                        I.work.append(s2)
            except PathEnd:
                pass
            except Violation as v:
                if self.bounded is not None and self.unsafe:
                    st.x = dict(st.x, viol=(v.kind, v.msg, I.loc()))
                    I.work.append(st)
                else:
                    self.report(I, st, v.kind, v.msg)

    def all_valid(self, I, st):
        """the rest of the input is well formed (precondition of the unsafe functions)"""
        L = st.x['L']
        for _ in range(64):
            A = Acc(self, I, st, L)
            if not A.avail(0):
                return
            ok, n, cp = self.src.decode(A, A.flag(0))
            if not ok:
                raise PathEnd()
            L = addc(L, -n)

    def unalias(self, st):
        """two unit symbols whose positions became equal in this cell hold the same unit"""
        us = st.units
        num = st.num
        for i in range(len(us)):
            for j in range(i):
                d = sub(us[i][0], us[j][0])
                if d[1]:
                    d = num.renorm(d)
                if d == (0, ()):
                    a, b = num.srange(us[i][1]), num.srange(us[j][1])
                    lo, hi = max(a[0], b[0]), min(a[1], b[1])
                    if not num.refine(('box', us[i][1], lo, hi)) or not num.refine(('box', us[j][1], lo, hi)):
                        return False
        return True

    def assume_valid(self, I, st):
        A = Acc(self, I, st, st.x['L'])
        if not self.stepwise and A.avail(0):
            ok, n, cp = self.src.decode(A, A.flag(0))
            if not ok:
                raise PathEnd()
            st.num.refine(('ge0', addc(st.x['L'], -n)))
        st.x['pre'] = False

    # ------------------------------------------------------------ spec
    def step(self, I, st, L, R):
        """one transition of the specification from (L, R)"""
        A = Acc(self, I, st, L)
        num = st.num
        if not A.avail(0):
            return ('done', COMPLETED)
        if self.stepwise:
            # UTF-8 that is known to be valid has one character per non-continuation unit
            b = A.u(0)
            if A.ge(b, 0x80) and not A.ge(b, 0xC0):
                return ('next', 1, [], [])
            if not num.ge0(addc(R, -1)):
                return ('done', INSUFF, [])
            return ('next', 1, [None], [])
        lax = A.flag(0)
        ok, n, cp = self.src.decode(A, lax)
        ev = []
        if not ok:
            if self.unsafe:
                raise PathEnd()
            if self.mode == 'tr' and self.notif:
                ev.append(('inv', L, n))
            if A.flag(1):
                return ('done', INVALID, ev)
            out = [const(x) for x in self.dst.repl_units]
        else:
            if self.mode == 'tr' or isinstance(self.dst, charsets.Sbcs):
                out = self.dst.encode(A, cp) if (self.mode == 'tr' or A.flag(2)) else [None]
            else:
                out = [None] * self.dst.size(A, cp)
            if out is None:
                if A.eq(cp, 0xFFFD):
                    out = [const(x) for x in self.dst.repl_units]
                else:
                    if self.mode == 'tr' and self.notif:
                        ev.append(('unsup', cp))
                    if A.flag(2):
                        return ('done', UNSUP, ev)
                    out = [const(x) for x in self.dst.repl_units]
        if not num.ge0(addc(R, -len(out))):
            return ('done', INSUFF, ev)
        return ('next', n, out, ev)

    # ------------------------------------------------------------ events
    def on_vcall(self, I, st, obj, slot, args, rty):
        if self.mode == 'tr' and self.notif and obj is self.N:
            a = [x[0] for x in args]
            if len(a) == 5:
                st.events = st.events + (('inv', a[1], a[2], a[3], a[4], I.loc()),)
            elif len(a) == 3:
                st.events = st.events + (('unsup', a[1], a[2], I.loc()),)
            else:
                raise Violation('notify', 'unexpected virtual call on the error notifier (slot %d)' % slot)
            return UNDEF
        raise Imprecise('virtual call on ' + obj.name)

    def on_oob(self, I, st, msg):
        raise Violation('bounds', msg)

    def cstr(self, I, p):
        r, o = I.split_ptr(p)
        if r is None or r.kind != 'const' or not is_const(o):
            return None
        raw, _ = I.mod.gbytes(r.name)
        e = raw.find(b'\0', o[0])
        return raw[o[0]:e].decode('latin1')

    def match_events(self, I, st, exp):
        got = st.events
        E = var(self.E.sym)
        if len(got) != len(exp):
            raise Violation('notify', 'error notifier called %d time(s), specification says %d (%s)' % (
                len(got), len(exp), ', '.join(e[0] for e in exp) or 'none'))
        for g, e in zip(got, exp):
            if g[0] != e[0]:
                raise Violation('notify', 'notifier callback %s instead of %s' % (g[0], e[0]))
            if g[0] == 'inv':
                seq = add(E, mulc(e[1], -self.us))
                if not self.same(st, g[1], const(self.us), 32):
                    raise Violation('notify', 'code unit size passed to invalid_sequence is not %d' % self.us)
                nm = self.cstr(I, g[2])
                if nm != self.src.name:
                    raise Violation('notify', 'charset name passed to invalid_sequence is %r, expected %r' % (nm, self.src.name))
                if not self.same(st, g[3], seq, 64):
                    raise Violation('notify', 'sequence pointer passed to invalid_sequence is off by %s bytes' % st.num.fmt(sub(g[3], seq)))
                if not self.same(st, g[4], const(e[2]), 64):
                    raise Violation('notify', 'sequence length passed to invalid_sequence is %s, expected %d' % (st.num.fmt(g[4]), e[2]))
            else:
                nm = self.cstr(I, g[1])
                if nm != self.dst.name:
                    raise Violation('notify', 'charset name passed to unsupported_codepoint is %r, expected %r' % (nm, self.dst.name))
                if not self.same(st, g[2], e[1], 32):
                    raise Violation('notify', 'codepoint passed to unsupported_codepoint is %s, expected %s' % (st.num.fmt(g[2]), st.num.fmt(e[1])))
            self.stats['events'] += 1

    def same(self, st, a, b, bits):
        if a is UNDEF or not isinstance(a[0], int):
            return False
        num = st.num
        r = equal_mod(num, a, b, bits)
        if isinstance(r, bool):
            return r
        d = r[1]
        m = 1 << bits
        bs = num.base_syms(d) if bits < 64 else ()
        free = [s for s in bs if num.srange(s)[0] != num.srange(s)[1]]
        if len(free) == 1 and num.srange(free[0])[1] - num.srange(free[0])[0] <= 1 << 21:
            import numpy as np
            l, h = num.srange(free[0])
            v = num.evalvec(d, {free[0]: np.arange(l, h + 1, dtype=np.int64)}) % m
            if not np.any(v):
                return True
            return False
        lo, hi = num.rng(d)
        k = (lo + m - 1) // m
        if lo == hi:
            return lo % m == 0
        # decide on which side of the candidate multiple we are
        if num.ge0(addc(d, -k * m)):
            if num.ge0(addc(neg(d), k * m)):
                return True
            return self.same(st, addc(a, 0), b, bits) if False else False
        return False

    # ------------------------------------------------------------ segments
    def advance(self, I, st, stop):
        """run the specification from the segment start; stop(L,R,k) -> True to end.
        returns (L, R, outs, events, done)"""
        L, R = st.x['L'], st.x['R']
        outs, evs = [], []
        for k in range(8):
            if stop is not None and stop(L, R, k):
                return L, R, outs, evs, None
            s = self.step(I, st, L, R)
            if s[0] == 'done':
                if len(s) > 2:
                    evs = evs + s[2]
                return L, R, outs, evs, s[1]
            L = addc(L, -s[1])
            outs = outs + s[2]
            R = addc(R, -len(s[2]))
            evs = evs + s[3]
        return L, R, outs, evs, 'long'

    def check_writes(self, I, st, outs):
        if self.mode != 'tr':
            return
        D = var(self.D.sym)
        start = add(D, mulc(st.x['R'], -self.ws))
        got = {}
        for p, size, v in st.writes:
            d = st.num.renorm(sub(p, start))
            if not isinstance(size, int):
                n = st.num.renorm(size)
                if not is_const(n) or n[0] > 64 or n[0] % self.ws or not is_const(d) or d[0] % self.ws or v[0] != 'copy' or self.us != self.ws:
                    raise Imprecise('bulk write in a lock-step segment')
                for k in range(n[0] // self.ws):
                    got[d[0] // self.ws + k] = self.I.unit(st, addc(v[1], k * self.us), self.E)
                continue
            if not is_const(d) or d[0] % self.ws or size != self.ws:
                raise Imprecise('write at an unrelated position')
            if d[0] < 0:
                raise Violation('output', 'writes over already delivered output')
            got[d[0] // self.ws] = v
        for k, o in enumerate(outs):
            if k not in got:
                raise Violation('output', 'output unit %d of the sequence is never written' % k)
            if o is None:
                continue
            if not self.same(st, got[k], o, 8 * self.ws):
                raise Violation('output', 'output unit %d is %s, specification: %s' % (k, self.show(st, got[k]), self.show(st, o)))
            self.stats['writes'] += 1

    def show(self, st, v):
        if v is UNDEF or not isinstance(v[0], int):
            return 'unknown'
        v = st.num.renorm(v)
        if is_const(v):
            return '0x%X' % (v[0] & ((1 << 8 * self.ws) - 1))
        return st.num.fmt(v)

    def cell(self, st):
        o = []
        num = st.num
        for s, (l, h) in sorted(num.box.items()):
            sy = num.T.syms[s]
            if sy.kind == 'unit' and sy.key and sy.key[0] == 'unit':
                d = st.num.renorm(sub(sy.key[1], add(var(self.E.sym), mulc(st.x['L'], -self.us))))
                nm = 'src[%d]' % (d[0] // self.us) if is_const(d) else sy.name
                o.append('%s in [0x%X,0x%X]' % (nm, l, h) if l != h else '%s=0x%X' % (nm, l))
            elif s in self.flags:
                o.append('%s=%s' % (sy.name, l if l == h else '?'))
        l, h = num.rng(st.x['L'])
        o.append('units left: %s' % (l if l == h else '>=%d' % l))
        l, h = num.rng(st.x['R'])
        o.append('room: %s' % (l if l == h else '%d..%s' % (l, h if h < 1 << 39 else '')))
        return '; '.join(o)

    def report(self, I, st, kind, msg, loc=None):
        if not st.num.feasible():
            self.stats['infeasible'] = self.stats.get('infeasible', 0) + 1
            return
        loc = loc or I.loc()
        if kind == 'notify' and st.events:
            loc = st.events[-1][-1]
        elif 'include/strf' not in loc and 'lb' in st.x:
            loc = I.mod.locs[st.x['lb']].replace(H_REPO, '')
        self.findings.append(dict(kind=kind, msg=msg, where=loc, fn=st.frames[-1].fn.dem if st.frames else '?', cell=self.cell(st),
                                  segment=str(st.x.get('seg'))))
        if self.bounded is not None:
            if len(self.findings) > (40 if self.forget else 300):
                raise Enough()
        elif len(self.findings) > 400:
            raise Imprecise('too many mismatches: ' + self.findings[0]['msg'])

    # ------------------------------------------------------------ return
    def on_return(self, I, st):
        cells = st.mem.get(self.ret.sym, {})
        try:
            if self.mode == 'tr':
                rs, rd, rr = cells[0][1], cells[8][1], cells[16][1]
            else:
                rd, rs, rr = cells[0][1], cells[8][1], cells[16][1]
        except KeyError:
            raise Violation('result', 'result field not set')
        num = st.num
        need = None
        if isinstance(rs[0], int):
            need = num.renorm(sub(rs, add(var(self.E.sym), mulc(st.x['L'], -self.us))))
            need = need[0] // self.us if is_const(need) and need[0] % self.us == 0 else None
        if self.bounded is None and (need is None or st.x.get('scan') or any(not isinstance(w[1], int) for w in st.writes) or (self.mode == 'sz' and not st.reads)):
            if self.bulk_return(I, st, rs, rd, rr):
                return
        stop = None
        if need is not None:
            L0 = st.x['L']

            def stop(L, R, k):
                return sub(L0, L)[0] >= need
        L, R, outs, evs, done = self.advance(I, st, stop)
        if done is None:
            # the specification must stop exactly here
            s = self.step(I, st, L, R)
            if s[0] == 'next':
                raise Violation('result', 'stops (%s) where the specification goes on' % self.reason(rr))
            if len(s) > 2:
                evs = evs + s[2]
            done = s[1]
        elif done == 'long':
            raise Imprecise('result position not related to the specification')
        self.stats['returns'] += 1
        self.stats['segments'] += 1
        self.match_events(I, st, evs)
        self.check_writes(I, st, outs)
        self.check_result(I, st, rs, rd, rr, L, R, done)

    def reason(self, rr):
        return RNAME[rr[0]] if isinstance(rr[0], int) and is_const(rr) and 0 <= rr[0] < 4 else '?'

    def check_result(self, I, st, rs, rd, rr, L, R, done):
        num = st.num
        E = var(self.E.sym)
        if not self.same(st, rr, const(done), 32):
            raise Violation('result', 'stop reason is %s, specification: %s' % (
                RNAME[rr[0]] if isinstance(rr[0], int) and is_const(rr) and 0 <= rr[0] < 4 else self.show(st, rr), RNAME[done]))
        es = add(E, mulc(L, -self.us))
        if not self.same(st, rs, es, 64):
            raise Violation('result', 'src_ptr is %s bytes away from the specified position (stop reason %s)' % (num.fmt(num.renorm(sub(rs, es))), RNAME[done]))
        if self.mode == 'tr':
            ed = add(var(self.D.sym), mulc(R, -self.ws))
            what = 'dst_ptr'
        else:
            ed = sub(var(self.R0), R)
            what = 'ssize'
        if not self.same(st, rd, ed, 64):
            raise Violation('result', '%s differs from the specification by %s (stop reason %s)' % (what, num.fmt(num.renorm(sub(rd, ed))), RNAME[done]))

    # ---- closed forms
    def uniform(self, I, st):
        """every transition of the specification from a generic position consumes one unit and
        yields one unit with no stop, in the current flag cell?  (decided by exhausting the
        specification's transitions over the whole unit domain)"""
        key = tuple(st.num.srange(f) for f in self.flags)
        c = self.__dict__.setdefault('_uni', {})
        if key in c:
            return c[key]
        from dom import Num
        ok = True
        s0 = State(I.T)
        for f in self.flags:
            s0.num.box[f] = st.num.srange(f)
        Lg = var(I.T.new('Lgen', 'len', 1, 1 << 40, None, 'Lgen'))
        Rg = var(I.T.new('Rgen', 'len', 8, 1 << 40, None, 'Rgen'))
        work = [s0]
        n = 0
        while work and ok:
            s = work.pop()
            n += 1
            try:
                r = self.step(I, s, Lg, Rg)
                if r[0] != 'next' or r[1] != 1 or len(r[2]) != 1 or r[3]:
                    ok = False
            except NeedSplit as e:
                for alt in e.alts:
                    s2 = s.copy()
                    if all(s2.num.refine(x) for x in alt):
                        work.append(s2)
            except PathEnd:
                pass
        c[key] = ok
        return ok

    def bulk_return(self, I, st, rs, rd, rr):
        """result computed without looking at the units one by one; True when judged"""
        num = st.num
        if self.mode == 'sz':
            for f in self.flags:
                if not self.uniform(I, st):
                    num.eq0(var(f))
            if self.uniform(I, st):
                L, R = st.x['L'], st.x['R']
                if num.ge0(sub(R, L)):
                    L2, R2, done = const(0), sub(R, L), COMPLETED
                else:
                    L2, R2, done = sub(L, R), const(0), INSUFF
                self.stats['returns'] += 1
                self.stats['segments'] += 1
                self.check_result(I, st, rs, rd, rr, L2, R2, done)
                return True
        if self.unsafe and self.src.id == self.dst.id and self.us == self.ws:
            self.scan_return(I, st, rs, rd, rr)
            return True
        return False

    # identity transcoding of valid input in one block: the result must be the longest prefix that
    # fits and ends on a character boundary
    def scan_return(self, I, st, rs, rd, rr):
        num = st.num
        if not (self.unsafe and self.src.id == self.dst.id and self.us == self.ws):
            raise Imprecise('result of a block operation that is not a uniform one-to-one step')
        E = var(self.E.sym)
        L, R = st.x['L'], st.x['R']
        # consumed units according to the function
        c = num.renorm(sub(rs, add(E, mulc(L, -self.us))))
        c = num.floordiv(c, self.us)
        self.stats['returns'] += 1
        self.stats['segments'] += 1
        if num.ge0(sub(R, L)):
            want = L
            done = COMPLETED
            if not num.implied(sub(c, want)) or not num.implied(sub(want, c)):
                raise Violation('result', 'block copy of input that fits consumes %s units instead of all' % num.fmt(c))
        else:
            done = INSUFF
            self.boundary(I, st, c, R)
        if not self.same(st, rr, const(done), 32):
            raise Violation('result', 'stop reason is not ' + RNAME[done])
        if self.mode == 'tr':
            D = var(self.D.sym)
            pd = num.renorm(sub(rd, add(D, mulc(R, -self.ws))))
            if not self.same(st, pd, mulc(c, self.ws), 64):
                raise Violation('result', 'dst_ptr does not match the number of consumed units')
            if num.ge0(addc(c, -1)):
                ok = False
                for p, n, v in st.writes:
                    if isinstance(n, int) or v[0] != 'copy':
                        raise Imprecise('mixed block writes')
                    if self.same(st, p, add(D, mulc(R, -self.ws)), 64) and self.same(st, n, mulc(c, self.ws), 64) and \
                       self.same(st, v[1], add(E, mulc(L, -self.us)), 64):
                        ok = True
                if not ok:
                    raise Violation('output', 'the consumed units are not copied to the destination')
        else:
            if not self.same(st, rd, add(sub(var(self.R0), R), c), 64):
                raise Violation('result', 'ssize does not match the number of consumed units')

    def boundary(self, I, st, c, R):
        """c is the largest character boundary <= R"""
        num = st.num
        A = Acc(self, I, st, st.x['L'])

        def unit_at(k):      # k: Lin offset in units from the cursor
            p = add(var(self.E.sym), mulc(sub(st.x['L'], k), -self.us))
            return I.unit(st, p, self.E)
        if not num.implied(sub(R, c)) or not num.implied(c):
            raise Violation('result', 'consumes more units than fit')
        if self.src.id == 'utf8':
            if not num.eq0(c):
                b = unit_at(c)
                l, h = num.rng(b)
                if l >= 0x80 and h <= 0xBF:
                    raise Violation('result', 'stops in the middle of a sequence')
                if not (h < 0x80 or l > 0xBF):
                    raise Violation('result', 'may stop in the middle of a sequence')
            d = sub(R, c)
            if is_const(d) and d[0] == 0:
                return
            sc = st.x.get('scan')
            if sc is None or not self.same(st, sc[1], R, 64) or not self.same(st, sc[0], c, 64):
                raise Imprecise('longest-prefix argument not recognised')
            return
        if self.src.id == 'utf16':
            d = num.renorm(sub(R, c))
            if not is_const(d):
                raise Imprecise('longest-prefix argument not recognised')
            lax = A.flag(0)

            def inside(k):
                """position k splits a surrogate pair?"""
                a, b = unit_at(addc(k, -1)), unit_at(k)
                if not A.ge(a, 0xD800) or A.ge(a, 0xDC00):
                    return False
                low = A.ge(b, 0xDC00) and not A.ge(b, 0xE000)
                if not lax and not low:
                    raise PathEnd()       # not valid input
                return low
            if d[0] == 0:
                if num.ge0(addc(c, -1)) and inside(c):
                    raise Violation('result', 'stops in the middle of a surrogate pair')
            elif d[0] == 1:
                if not inside(R):
                    raise Violation('result', 'leaves out a character that fits')
            else:
                raise Violation('result', 'leaves out %d units that fit' % d[0])
            return
        if self.src.id == 'utf32' or isinstance(self.src, charsets.Sbcs):
            if not num.implied(sub(c, R)):
                raise Violation('result', 'leaves out units that fit')
            return
        raise Imprecise('no closed form')

    # ------------------------------------------------------------ cuts
    def frame_sig(self, st, fr, h):
        o = []
        for f in st.frames[:-1]:
            o.append((f.fn.name, f.blk, f.idx))
        o.append((fr.fn.name, h))
        return tuple(o)

    def relevant_len(self, I, v):
        if not isinstance(v[0], int):
            return False
        for s, _ in v[1]:
            sy = I.T.syms[s]
            if s == self.E.sym or (self.mode == 'tr' and s == self.D.sym) or sy.kind == 'len':
                return True
        return False

    def tags(self, L, R):
        E = var(self.E.sym)
        t = [('S', add(E, mulc(L, -self.us)))]
        if self.mode == 'tr':
            t.append(('D', add(var(self.D.sym), mulc(R, -self.ws))))
            t.append(('P', sub(var(self.R0), R)))
        else:
            t.append(('Z', sub(var(self.R0), R)))
        t.append(('R', R))
        t.append(('L', L))
        t.append(('C', sub(var(self.L0), L)))
        return t

    def on_header_bounded(self, I, st, fr, h):
        phis = []
        for i in fr.fn.blocks[h]:
            if i[0] != 'phi':
                break
            phis.append((i[1], i[2], fr.env[i[1]]))
        num = st.num
        E = var(self.E.sym)
        cands = [p for p in phis if isinstance(p[2][0], int) and any(s == self.E.sym for s, _ in p[2][1])]
        if not cands:
            return None
        pid, _, pv = self.rank_cursors(st, fr, h, cands)[0]
        need = num.renorm(sub(pv, add(E, mulc(st.x['L'], -self.us))))
        if not is_const(need) or need[0] % self.us or need[0] < 0:
            return None
        need = need[0] // self.us
        st_L = st.x['L']
        try:
            L, R, outs, evs, done = self.advance(I, st, lambda L, R, k: sub(st_L, L)[0] >= need)
            if done is not None or sub(st_L, L)[0] != need:
                return None
            self.match_events(I, st, evs)
            self.check_writes(I, st, outs)
        except Violation:
            return None
        # forget the consumed units unless a live value still depends on them
        env = self.env_live(st, fr, h, True)
        key = []
        rel = set()
        for fe in env:
            for k, v in fe:
                if v is UNDEF:
                    continue
                if not isinstance(v[0], int):
                    v = repr(v)
                else:
                    v = num.renorm(v)
                    rel |= num.base_syms(v)
                key.append((k, v))
            key.append('|')
        mem = []
        for rs in sorted(st.mem):
            if I.regions[rs].kind == 'units':
                continue
            for o, (sz, v) in sorted(st.mem[rs].items()):
                if v is not UNDEF and isinstance(v[0], int):
                    v = num.renorm(v)
                    rel |= num.base_syms(v)
                    mem.append((rs, o, sz, v))
                else:
                    mem.append((rs, o, sz, repr(v)))
        rel = {s for s in rel if I.T.syms[s].kind != 'base'}
        if any(I.T.syms[s].kind == 'unit' and s not in self.flags for s in rel):
            if not self.forget:
                return None
            # over-approximate loop variables that still depend on consumed units
            ch = False
            for p, ty, v in phis:
                if ty[0] == 'i' and v is not UNDEF and isinstance(v[0], int):
                    if any(I.T.syms[s].kind == 'unit' for s in num.base_syms(num.renorm(v))):
                        ty_b = int(ty[1:])
                        fr.env[p] = var(I.T.new('phi', 'num', 0, (1 << ty_b) - 1, None, ('phib', self.frame_sig(st, fr, h), p)))
                        ch = True
            if not ch:
                return None
            return self.on_header_bounded(I, st, fr, h)
        rel |= set(self.flags)
        cur = add(E, mulc(L, -self.us))
        keep = []
        for p, s in st.units:
            d = num.renorm(sub(p, cur))
            if num.srange(s) != (0, (1 << 8 * self.us) - 1) and (not is_const(d) or d[0] >= 0):
                keep.append((p, s))
                rel.add(s)
        key = (self.frame_sig(st, fr, h), L, R, tuple(key), tuple(mem))
        box = {s: num.srange(s) for s in rel}
        lst = self.memo.setdefault(key, [])
        for b in lst:
            if set(b) == set(box) and all(self.inside(box[s], b[s]) for s in b):
                raise PathEnd()
        lst.append(box)
        num.box = {s: b for s, b in num.box.items() if s in rel or s in (self.L0, self.R0)}
        num.cons = ()
        st.units = tuple(keep)
        st.reads = 0
        st.writes = ()
        st.events = ()
        st.x = {'L': L, 'R': R, 'pre': self.unsafe, 'seg': I.loc(self.first_ins(fr, h))}
        self.stats['segments'] += 1
        if self.unsafe:
            # continue from the header with the validity assumption of the next sequence
            ns = st.copy()
            nf = ns.frames[-1]
            nf.prev = nf.blk
            nf.blk = h
            nf.idx = len(phis)
            I.work.append(ns)
            raise PathEnd()
        return None

    @staticmethod
    def first_ins(fr, h):
        for i in fr.fn.blocks[h]:
            if i[0] != 'phi':
                return i
        return fr.fn.blocks[h][0]

    def on_header(self, I, st, fr, h, prev):
        if self.bounded is not None:
            return self.on_header_bounded(I, st, fr, h)
        phis = []
        for i in fr.fn.blocks[h]:
            if i[0] != 'phi':
                break
            phis.append((i[1], i[2], fr.env[i[1]]))
        sig = self.frame_sig(st, fr, h)
        if sig not in self.tmpl and not any(self.relevant_len(I, v) for _, _, v in phis):
            return None
        num = st.num
        E = var(self.E.sym)
        # 1. bring the specification to the cursor of the function
        mode = self.choice.get(sig)
        res = None
        cands = [p for p in phis if isinstance(p[2][0], int) and any(s == self.E.sym for s, _ in p[2][1])]
        t = self.tmpl.get(sig)
        if t is not None:
            cands = [p for p in phis if p[0] == t['cursor']] if t['cursor'] is not None else []
        else:
            cands = self.rank_cursors(st, fr, h, cands)
        if cands:
            pid, _, pv = cands[0]
            need = num.renorm(sub(pv, add(E, mulc(st.x['L'], -self.us))))
            off = t['curoff'] if t is not None else 0
            need = addc(need, -off)
            if not is_const(need) and self.unsafe and (t is None or t.get('scan')):
                cands = []
            elif not is_const(need):
                raise Imprecise('cursor moved by a symbolic amount (%s)' % num.fmt(need))
        if cands:
            if need[0] % self.us:
                raise Violation('cursor', 'cursor not on a code unit')
            need = need[0] // self.us
            st_L = st.x['L']

            def stop(L, R, k):
                return sub(st_L, L)[0] >= need
            L, R, outs, evs, done = self.advance(I, st, stop)
            if done is not None:
                raise Violation('result', 'continues although the specification stops here (%s)' % (RNAME[done] if done != 'long' else '?'))
            got = sub(st_L, L)[0]
            if got != need:
                raise Violation('cursor', 'advances %d unit(s) where the specification consumes %d' % (need, got))
            self.match_events(I, st, evs)
            self.check_writes(I, st, outs)
            self.stats['segments'] += 1
        else:
            pid = None
            L, R = st.x['L'], st.x['R']
            if st.writes or st.events:
                raise Imprecise('effects before a loop that does not carry the source cursor')
        # 2. relations
        if t is None:
            t = {'cursor': pid, 'curoff': 0, 'rel': {}, 'ineq': [], 'loc': I.loc(self.first_ins(fr, h))}
            for p, ty, v in phis:
                rl = []
                if isinstance(v[0], int) and v is not UNDEF:
                    for tag, f in self.tags(L, R):
                        g = num.renorm(sub(v, f))
                        if is_const(g):
                            rl.append((tag, g))
                    rl.append(('K', v))
                t['rel'][p] = rl
            c = []
            for k in (1, 2, 3, 4):
                if num.implied(sub(R, mulc(L, k))):
                    c.append(('RkL', k))
            if num.implied(addc(sub(L, R), -1)):
                c.append(('LgtR', 1))
            for p, q in ((1, 1),):
                if num.eq0(num.renorm(sub(sub(var(self.R0), R), mulc(sub(var(self.L0), L), 1)))):
                    c.append(('eq', 1))
            t['ineq'] = c
            self.tmpl[sig] = t
            self.stats['cuts'] += 1
        else:
            changed = False
            tg = dict(self.tags(L, R))
            for p, ty, v in phis:
                old = t['rel'].get(p, [])
                new = []
                for tag, g in old:
                    if not isinstance(v[0], int):
                        continue
                    if tag == 'K':
                        if num.renorm(sub(v, g)) == (0, ()):
                            new.append((tag, g))
                    else:
                        if num.renorm(sub(v, tg[tag])) == g:
                            new.append((tag, g))
                if new[:1] != old[:1]:
                    changed = True
                t['rel'][p] = new
            new = []
            for c in t['ineq']:
                if c[0] == 'RkL' and num.implied(sub(R, mulc(L, c[1]))):
                    new.append(c)
                elif c[0] == 'LgtR' and num.implied(addc(sub(L, R), -1)):
                    new.append(c)
                elif c[0] == 'eq' and num.renorm(sub(sub(var(self.R0), R), sub(var(self.L0), L))) == (0, ()):
                    new.append(c)
            if new != t['ineq']:
                t['ineq'] = new
                changed = True
            if changed:
                raise Restart()
        # scan facts (backward search loops)
        scan = None
        if pid is None:
            scan = self.scan_fact(I, st, fr, h, phis, prev)
        # 3. inclusion in a known context, or a new one
        key, relevant = self.ctx_key(I, st, fr, h, phis)
        key = (key, scan is not None)
        lst = self.ctx.setdefault(key, [])
        for box, cons in lst:
            if all(self.inside(num.srange(s), box.get(s)) for s in set(box) | set(relevant)) and all(num.implied(c) for c in cons):
                raise PathEnd()
        if len(lst) > 40:
            raise Imprecise('too many contexts')
        self.havoc(I, st, fr, h, phis, t, relevant, lst, sig, scan)
        raise PathEnd()

    def rank_cursors(self, st, fr, h, cands):
        """prefer the phi through which the loop reads the source"""
        if len(cands) < 2:
            return cands
        body = fr.fn.loops[h]
        uses = {}

        def walk(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == 'v' and isinstance(x[1], int):
                    uses[x[1]] = uses.get(x[1], 0) + 1
                else:
                    for y in x:
                        walk(y)
        for b in body:
            for i in fr.fn.blocks[b]:
                if i[0] in ('load', 'icmp', 'getelementptr'):
                    walk(i[4:])
        return sorted(cands, key=lambda p: -uses.get(p[0], 0))

    @staticmethod
    def inside(a, b):
        if b is None:
            return True
        return b[0] <= a[0] and a[1] <= b[1]

    def env_live(self, st, fr, h, with_phis=False):
        """values live across the cut (phis of the header excluded)"""
        o = []
        for f in st.frames[:-1]:
            ins = f.fn.blocks[f.blk]
            live = set()
            for s in f.fn.succs(f.blk):
                live |= f.fn.live_in(s)
                for i in f.fn.blocks[s]:
                    if i[0] != 'phi':
                        break
                    for pb, v in i[4]:
                        if pb == f.blk and v[0] == 'v':
                            live.add(v[1])
            acc = set(live)

            def ops(x):
                if isinstance(x, list):
                    if len(x) == 2 and x[0] == 'v' and isinstance(x[1], int):
                        acc.add(x[1])
                    else:
                        for y in x:
                            ops(y)
            for i in ins[f.idx + 1:]:
                ops(i[4:])
            o.append([(k, f.env[k]) for k in sorted(acc) if k in f.env])
        ph = {i[1] for i in fr.fn.blocks[h] if i[0] == 'phi'}
        if with_phis:
            o.append([(k, fr.env[k]) for k in sorted(ph)])
            ph = set()
        o.append([(k, fr.env[k]) for k in sorted(fr.fn.live_in(h)) if k in fr.env and k not in ph])
        return o

    def ctx_key(self, I, st, fr, h, phis):
        env = self.env_live(st, fr, h)
        rel = set(self.flags) | {self.L0, self.R0}

        def syms(v):
            if v is UNDEF:
                return
            if v[0] == 'agg':
                for x in v[1]:
                    syms(x)
            elif isinstance(v[0], int):
                rel.update(st.num.base_syms(v))
                for s, _ in v[1]:
                    rel.add(s)
        env2 = []
        for fe in env:
            l = []
            for k, v in fe:
                if v is not UNDEF and isinstance(v[0], int):
                    v = st.num.renorm(v)
                syms(v)
                l.append((k, repr(v) if v is UNDEF or not isinstance(v[0], int) else v))
            env2.append(tuple(l))
        rel = {s for s in rel if I.T.syms[s].kind != 'base'}
        mem = []
        for rs in sorted(st.mem):
            if rs == self.ret.sym:
                continue
            for o, (sz, v) in sorted(st.mem[rs].items()):
                if v is not UNDEF and isinstance(v[0], int):
                    v = st.num.renorm(v)
                    syms(v)
                    mem.append((rs, o, sz, v))
                else:
                    mem.append((rs, o, sz, repr(v)))
        rel = {s for s in rel if I.T.syms[s].kind != 'base'}
        return (self.frame_sig(st, fr, h), tuple(env2), tuple(mem)), sorted(rel)

    def havoc(self, I, st, fr, h, phis, t, relevant, lst, sig, scan):
        ns = st.copy()
        nf = ns.frames[-1]
        num = ns.num
        box = {s: st.num.box[s] for s in relevant if s in st.num.box}
        relset = set(relevant)
        cons = tuple(c for c in st.num.cons if all(s in relset for s, _ in c[1]))
        num.box = dict(box)
        num.cons = cons
        lst.append((box, cons))
        tag = 'h%d' % self.tagno.setdefault(sig, len(self.tagno))
        if t['cursor'] is not None:
            Ls = I.T.new('L@' + tag, 'len', 0, 1 << 40, None, ('L', sig))
            L = var(Ls)
            num.refine(('ge0', sub(var(self.L0), L)))
            eq = [c for c in t['ineq'] if c[0] == 'eq']
            if eq:
                R = sub(var(self.R0), sub(var(self.L0), L))
                num.refine(('ge0', R))
            else:
                Rs = I.T.new('R@' + tag, 'len', 0, 1 << 62, None, ('R', sig))
                R = var(Rs)
                num.refine(('ge0', sub(var(self.R0), R)))
            for c in t['ineq']:
                if c[0] == 'RkL':
                    num.refine(('ge0', sub(R, mulc(L, c[1]))))
                elif c[0] == 'LgtR':
                    num.refine(('ge0', addc(sub(L, R), -1)))
        else:
            L, R = st.x['L'], st.x['R']
        tg = dict(self.tags(L, R))
        for p, ty, v in phis:
            rl = t['rel'].get(p)
            if scan is not None and p == scan['phi']:
                rl = None
            if rl:
                tagn, g = rl[0]
                nf.env[p] = add(tg[tagn], g) if tagn != 'K' else g
            elif ty[0] == 'i':
                b = int(ty[1:])
                if scan is not None and p == scan['phi']:
                    x = I.T.new('scan@' + tag, 'len', 0, 1 << 40, None, ('scan', sig))
                    num.refine(('ge0', sub(scan['entry'], var(x))))
                    nf.env[p] = var(x)
                else:
                    nf.env[p] = var(I.T.new('phi@%s.%d' % (tag, p), 'num', 0, (1 << b) - 1, None, ('phi', sig, p)))
            elif ty == 'ptr' and scan is not None and p == scan['phi']:
                x = I.T.new('scan@' + tag, 'len', 0, 1 << 40, None, ('scan', sig))
                num.refine(('ge0', sub(scan['entry'], var(x))))
                nf.env[p] = add(scan['base'], var(x, self.us))
            else:
                raise Imprecise('loop variable without a relation at ' + t['loc'])
        nf.prev = nf.blk
        nf.blk = h
        n = 0
        for i in nf.fn.blocks[h]:
            if i[0] != 'phi':
                break
            n += 1
        nf.idx = n
        dead = {I.T.index.get(('L', sig)), I.T.index.get(('R', sig)), I.T.index.get(('scan', sig))}
        for rs, cells in ns.mem.items():
            for o, (sz, v) in list(cells.items()):
                if v is not UNDEF and isinstance(v[0], int) and any(
                        s in dead or (I.T.syms[s].kind == 'unit' and s not in self.flags) for s in num.base_syms(v)):
                    cells[o] = (sz, var(I.T.new('mem', 'num', 0, (1 << 8 * sz) - 1, None, ('memh', sig, rs, o))))
        ns.writes = ()
        ns.events = ()
        ns.units = ()
        ns.reads = 0
        ns.steps = 0
        ns.x = {'L': L, 'R': R, 'pre': self.unsafe and t['cursor'] is not None, 'seg': t['loc']}
        if scan is not None:
            x = var(I.T.index[('scan', sig)])
            ns.x['scan'] = (x, scan['entry'])
            ns.x['scanphi'] = (sig, scan['phi'], x)
        I.work.append(ns)

    def scan_fact(self, I, st, fr, h, phis, prev):
        """a loop that walks backwards over continuation units"""
        if self.src.id != 'utf8':
            return None
        sig = self.frame_sig(st, fr, h)
        E = var(self.E.sym)
        base = add(E, mulc(st.x['L'], -self.us))
        num = st.num
        sc = self.__dict__.setdefault('_scan', {})
        if sig not in sc:
            # first arrival: find the phi that is "position" (pointer or index from the cursor)
            for p, ty, v in phis:
                if not isinstance(v[0], int):
                    continue
                if ty == 'ptr':
                    e = num.renorm(sub(v, base))
                else:
                    e = num.renorm(v)
                if e == num.renorm(st.x['R']):
                    sc[sig] = (p, ty)
                    break
            else:
                return None
        p, ty = sc[sig]
        v = [x for x in phis if x[0] == p][0][2]
        pos = num.renorm(sub(v, base)) if ty == 'ptr' else num.renorm(v)
        sp = st.x.get('scanphi')
        entry = st.x['R']
        if sp is not None and sp[0] == sig:
            x = sp[2]
            if num.renorm(sub(x, pos)) != (1, ()):
                raise Imprecise('backward search does not step by one')
            u = I.unit(st, add(base, mulc(x, self.us)), self.E)
            l, hh = num.rng(u)
            if l < 0x80 or hh > 0xBF:
                raise Violation('result', 'backward search skips a unit that is not a continuation byte')
            # the position stays >= 0
            if not num.implied(pos):
                raise Violation('bounds', 'backward search runs past the beginning')
        elif pos != num.renorm(entry):
            return None
        return {'phi': p, 'entry': entry, 'base': base}
