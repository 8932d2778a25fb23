"""Oracle models of the character sets, written from the Unicode standard
(Table 3-7, "maximal subpart" practice; D76, D90-92), from the published 8-bit
tables (Python's codecs) and from docs/ref_charset.adoc.  Independent of strf's code."""
import codecs
from dom import const, var, add, sub, mulc, addc, neg

REPL = 0xFFFD


class Utf8:
    name = 'UTF-8'
    id = 'utf8'
    unit = 1
    boundary_fixed = False

    def decode(self, A, lax):
        """A.u(j): unit j at the cursor; A.avail(j): it exists.  -> (ok, length, cp)"""
        b0 = A.u(0)
        if not A.ge(b0, 0x80):
            return True, 1, b0
        if not A.ge(b0, 0xC2) or A.ge(b0, 0xF5):
            return False, 1, None
        if not A.ge(b0, 0xE0):
            need, rng = 1, (0x80, 0xBF)
            cp = mulc(addc(b0, -0xC0), 1 << 6)
        elif not A.ge(b0, 0xF0):
            need, rng = 2, (0x80, 0xBF)
            if A.eq(b0, 0xE0):
                rng = (0xA0, 0xBF)
            elif not lax and A.eq(b0, 0xED):
                rng = (0x80, 0x9F)
            cp = mulc(addc(b0, -0xE0), 1 << 12)
        else:
            need, rng = 3, (0x80, 0xBF)
            if A.eq(b0, 0xF0):
                rng = (0x90, 0xBF)
            elif A.eq(b0, 0xF4):
                rng = (0x80, 0x8F)
            cp = mulc(addc(b0, -0xF0), 1 << 18)
        for j in range(1, need + 1):
            if not A.avail(j):
                return False, j, None
            b = A.u(j)
            if not A.ge(b, rng[0]) or A.ge(b, rng[1] + 1):
                return False, j, None
            cp = add(cp, mulc(addc(b, -0x80), 1 << (6 * (need - j))))
            rng = (0x80, 0xBF)
        return True, need + 1, cp

    def supported(self, A, cp):
        return True

    def encode(self, A, cp):
        N = A.num
        def low6(sh):
            return addc(N.mod2(N.floordiv(cp, 1 << sh), 64), 0x80)
        if not A.ge(cp, 0x80):
            return [cp]
        if not A.ge(cp, 0x800):
            return [addc(N.floordiv(cp, 64), 0xC0), low6(0)]
        if not A.ge(cp, 0x10000):
            return [addc(N.floordiv(cp, 1 << 12), 0xE0), low6(6), low6(0)]
        return [addc(N.floordiv(cp, 1 << 18), 0xF0), low6(12), low6(6), low6(0)]

    def size(self, A, cp):
        return 1 if not A.ge(cp, 0x80) else 2 if not A.ge(cp, 0x800) else 3 if not A.ge(cp, 0x10000) else 4

    repl_units = (0xEF, 0xBF, 0xBD)


class Utf16:
    name = 'UTF-16'
    id = 'utf16'
    unit = 2

    def decode(self, A, lax):
        a = A.u(0)
        if not A.ge(a, 0xD800) or A.ge(a, 0xE000):
            return True, 1, a
        if not A.ge(a, 0xDC00) and A.avail(1):
            b = A.u(1)
            if A.ge(b, 0xDC00) and not A.ge(b, 0xE000):
                return True, 2, addc(add(mulc(addc(a, -0xD800), 1 << 10), addc(b, -0xDC00)), 0x10000)
        if lax:
            return True, 1, a
        return False, 1, None

    def supported(self, A, cp):
        return True

    def encode(self, A, cp):
        N = A.num
        if not A.ge(cp, 0x10000):
            return [cp]
        s = addc(cp, -0x10000)
        return [addc(N.floordiv(s, 1 << 10), 0xD800), addc(N.mod2(s, 1 << 10), 0xDC00)]

    def size(self, A, cp):
        return 1 if not A.ge(cp, 0x10000) else 2

    repl_units = (0xFFFD,)


class Utf32:
    name = 'UTF-32'
    id = 'utf32'
    unit = 4
    dev = None      # known deviation (see known_findings.txt): None, 'tr' or 'sz'

    def decode(self, A, lax):
        a = A.u(0)
        if A.ge(a, 0x110000):
            return False, 1, None
        if not lax and A.ge(a, 0xD800) and not A.ge(a, 0xE000 if self.dev is None else 0x10000):
            if self.dev == 'tr' and A.eq(a, 0xFFFD):
                return True, 1, a
            return False, 1, None
        return True, 1, a

    def supported(self, A, cp):
        return True

    def encode(self, A, cp):
        return [cp]

    def size(self, A, cp):
        return 1

    repl_units = (0xFFFD,)


# ---- single-byte sets -------------------------------------------------------
def _table(pyname, windows):
    t = []
    for b in range(256):
        try:
            t.append(ord(bytes([b]).decode(pyname)))
        except UnicodeDecodeError:
            if windows and 0x80 <= b < 0xA0:
                t.append(b)          # C1 control, as in the published "best fit" tables
            else:
                t.append(None)
    return t


SBCS_NAMES = {}
for _n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16):
    SBCS_NAMES['iso_8859_%d' % _n] = ('iso8859_%d' % _n, False, 'ISO-8859-%d' % _n)
for _n in range(1250, 1259):
    SBCS_NAMES['windows_%d' % _n] = ('cp%d' % _n, True, 'windows-%d' % _n)
SBCS_NAMES['ascii'] = ('ascii', False, 'ASCII')


class Sbcs:
    unit = 1

    def __init__(self, key):
        py, win, nm = SBCS_NAMES[key]
        self.id = key
        self.name = nm
        self.dec = _table(py, win)
        if key == 'windows_1255':
            self.dec[0xCA] = 0x05BA  # bestfit1255.txt / WHATWG index-windows-1255
        self.enc = {}
        for b, c in enumerate(self.dec):
            if c is not None:
                assert c not in self.enc
                self.enc[c] = b
        # maximal runs where cp - byte is constant
        self.druns = []
        for b, c in enumerate(self.dec):
            if self.druns and c is not None and self.druns[-1][2] is not None and self.druns[-1][2] + (b - self.druns[-1][0]) == c:
                self.druns[-1][1] = b
            elif self.druns and c is None and self.druns[-1][2] is None:
                self.druns[-1][1] = b
            else:
                self.druns.append([b, b, c])
        self.eruns = []
        for c in sorted(self.enc):
            b = self.enc[c]
            if self.eruns and self.eruns[-1][1] + 1 == c and self.eruns[-1][2] + (c - self.eruns[-1][0]) == b:
                self.eruns[-1][1] = c
            else:
                self.eruns.append([c, c, b])

    @staticmethod
    def _find(A, v, runs, hi):
        """partition v by the run boundaries; returns the run containing it or None"""
        lo_i, hi_i = 0, len(runs)
        while lo_i < hi_i:
            m = (lo_i + hi_i) // 2
            if A.ge(v, runs[m][0]):
                if not A.ge(v, runs[m][1] + 1):
                    return runs[m]
                lo_i = m + 1
            else:
                hi_i = m
        return None

    def decode(self, A, lax):
        a = A.u(0)
        r = self._find(A, a, self.druns, 255)
        if r[2] is None:
            return False, 1, None
        return True, 1, addc(a, r[2] - r[0])

    def supported(self, A, cp):
        return self._find(A, cp, self.eruns, None) is not None

    def encode(self, A, cp):
        r = self._find(A, cp, self.eruns, None)
        if r is None:
            return None
        return [addc(cp, r[2] - r[0])]

    def size(self, A, cp):
        return 1

    repl_units = (0x3F,)


def get(key):
    return {'utf8': Utf8, 'utf16': Utf16, 'utf32': Utf32}[key]() if key.startswith('utf') else Sbcs(key)
