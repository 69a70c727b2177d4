"""Output streams as observers: every byte written drives a specification automaton."""
import re, z3
from .vals import *
from .exec import *
from . import lib
from .build import norm

HEXV = lambda c: z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))
ISHEX = lambda c: z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))
SIMPLE = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}


def simple_is(c):
    return z3.Or(*[c == k for k in SIMPLE])


def simple_val(c):
    r = z3.IntVal(0)
    for k, v in SIMPLE.items():
        r = z3.If(c == k, z3.IntVal(v), r)
    return r


class StringDecoder:
    """the JSON string literal automaton: 0 before the opening quote, 1 inside,
    2 after a backslash, 3..6 hexadecimal digits of a code point, 7 closed, 8 invalid"""

    def __init__(self, E, st, src, n, tag, key='dec'):
        self.E, self.src, self.n, self.tag, self.key = E, src, n, tag, key
        for k, v in (('mode', 0), ('cnt', 0), ('acc', 0)):
            st.g[(key, k)] = z3.IntVal(v)

    def get(self, s, k):
        return s.g[(self.key, k)]

    def feed(self, s, c):
        E = self.E
        m, cnt, acc = (self.get(s, k) for k in ('mode', 'cnt', 'acc'))
        raw = z3.And(c >= 32, c != 34, c != 92)
        nm = z3.If(m == 0, z3.If(c == 34, 1, 8), z3.If(m == 1, z3.If(c == 34, 7, z3.If(c == 92, 2, z3.If(c < 32, 8, 1))),
             z3.If(m == 2, z3.If(simple_is(c), 1, z3.If(c == 117, 3, 8)),
             z3.If(z3.And(m >= 3, m <= 6), z3.If(ISHEX(c), z3.If(m == 6, 1, m + 1), 8), 8))))
        emit = z3.Or(z3.And(m == 1, raw), z3.And(m == 2, simple_is(c)), z3.And(m == 6, ISHEX(c)))
        val = z3.If(m == 1, c, z3.If(m == 2, simple_val(c), (16 * acc + HEXV(c)) % 256))
        E.oblige(s, z3.simplify(nm != 8), 'the text written is a well-formed string literal (escapes complete, no raw control byte, nothing after the closing quote)', self.tag)
        E.oblige(s, z3.simplify(z3.Implies(emit, z3.And(cnt < self.n, z3.Select(self.src, cnt) == val))), 'the text written decodes to the bytes of the string in order', self.tag)
        s.g[(self.key, 'acc')] = z3.simplify(z3.If(z3.And(m >= 3, m <= 6), 16 * acc + HEXV(c), z3.IntVal(0)))
        s.g[(self.key, 'cnt')] = z3.simplify(cnt + z3.If(emit, 1, 0))
        s.g[(self.key, 'mode')] = z3.simplify(nm)

    def done(self, s):
        return z3.And(self.get(s, 'mode') == 7, self.get(s, 'cnt') == self.n)

    def cands(self, E, L):
        out = []
        if not any(loc[0] == 'g' and isinstance(loc[1], tuple) and loc[1][0] == self.key for loc in L.M):
            return out
        out.append(('inside the literal', lambda E_, s, e: self.get(s, 'mode') == 1))
        for v in L.vars:
            if v.kind in ('int', 'ptr'):
                for d in (0, 1, -1):
                    out.append(('bytes written = %s%+d' % (v.name, d), lambda E_, s, e, v=v, d=d: self.get(s, 'cnt') == v.get(E_, s, e).z + d))
                out.append(('bytes written + %s = length' % v.name, lambda E_, s, e, v=v: self.get(s, 'cnt') + v.get(E_, s, e).z == self.n))
        out.append(('bytes written within the string', lambda E_, s, e: z3.And(self.get(s, 'cnt') >= 0, self.get(s, 'cnt') <= self.n)))
        return out


class Sink:
    """an output stream whose bytes go to feed(state, byte)"""

    def __init__(self, E, rid, feed):
        self.E, self.rid, self.feed = E, rid, feed
        E.lib.insert(0, (lib.is_ostream, self.call))

    def is_me(self, p):
        return isinstance(p, Ptr) and p.base == self.rid

    def text(self, s, b, n):
        n = Lin.of(n)
        if not n.is_const():
            for c in range(0, 17):
                if self.E.P.valid_quick(s, n.z == c):
                    n = Lin(None, c)
                    break
        if not n.is_const():
            raise Unsupported('text of unknown length written to an observed stream')
        for i in range(n.c):
            self.feed(s, z3.simplify(b.at(i)))

    def call(self, E, st, a, I_, dm):
        d = norm(dm)
        if not a or not self.is_me(a[0]):
            return NotImplemented
        p = a[0]
        if re.match(r'(std::ostream& )?std::operator<< ?<.*>\(std::ostream&, char const\*\)$', d):
            n = lib.cstrlen(E, st, a[1])
            self.text(st, lib.bytes_at(E, st, a[1], n), n)
            return p
        if re.match(r'(std::ostream& )?std::operator<< ?<.*>\(std::ostream&, (unsigned |signed )?char\)$', d):
            self.feed(st, lib.c8(E, st, a[1]))
            return p
        if re.match(r'(std::ostream& )?std::operator<< ?<.*>\(std::ostream&, std::string const&\)$', d):
            arr = lib.sarr(E, st, a[1])
            self.text(st, lib.Bytes(lambda k: z3.Select(arr, Lin.of(k).z)), lib.slen(E, st, a[1]))
            return p
        if d == 'std::ostream::put(char)':
            self.feed(st, lib.c8(E, st, a[1]))
            return p
        if d in ('std::ostream::write(char const*, long)',) or re.match(r'(std::ostream& )?std::__ostream_insert<', d):
            n = E.s(st, a[2])
            self.text(st, lib.bytes_at(E, st, a[1], n), n)
            return p
        if d == 'std::ostream::flush()':
            return p
        raise Unsupported('output by ' + d)


def h_sprintf(E, st, a, I_, dm):
    """sprintf / snprintf of one integer with a constant hexadecimal format, non-negative values below 2^16"""
    nm = dm.split('(')[0]
    k = 2 if nm == 'snprintf' else 1
    n = lib.cstrlen(E, st, a[k])
    if not n.is_const():
        raise Unsupported('format')
    b = lib.bytes_at(E, st, a[k], n)
    fmt = ''.join(chr(z3.simplify(b.at(i)).as_long()) for i in range(n.c))
    m = re.match(r'([^%]*)%(0?)(\d*)(hh|h)?([xX])([^%]*)$', fmt)
    if not m:
        raise Unsupported('format ' + fmt)
    pre, z, w, hh, x, post = m.groups()
    v = E.s(st, a[k + 1]).z
    if hh:
        v = v % (256 if hh == 'hh' else 65536)
    w = int(w or 0)
    outs = []
    up = 55 if x == 'X' else 87
    dig = lambda d: z3.If(d < 10, d + 48, d + up)
    u = z3.If(v < 0, v + 2 ** 32, v)
    for nd in range(1, 9):
        cond = z3.And(u < 16 ** nd, u >= (16 ** (nd - 1) if nd > 1 else 0))
        if E.P.sat(st.pc, cond, 2000)[0] == z3.unsat:
            continue
        s = st.clone()
        s.assume(cond)
        cs = [dig((u / 16 ** (nd - 1 - i)) % 16) for i in range(nd)]
        cs = [z3.IntVal(48 if z else 32)] * (w - nd) + cs
        cs = [z3.IntVal(ord(c)) for c in pre] + cs + [z3.IntVal(ord(c)) for c in post]
        if k == 2:
            lim = E.u(s, a[1])
            E.oblige(s, lim.z > len(cs), 'formatted text fits')
        E.bounds(s, a[0], Lin(None, len(cs) + 1), 'formatted text')
        for i, c in enumerate(cs + [z3.IntVal(0)]):
            E.store(s, a[0] + i, IV(8, z3.simplify(c), 0, 255), Ty('int', 8))
        s.g[('nul', a[0].base)] = (a[0].off + len(cs)).z
        outs.append(Outcome('ret', s, IV(32, len(cs))))
    return outs


def install_sprintf(E):
    E.lib.insert(0, (lambda n, d: n in ('sprintf', 'snprintf'), h_sprintf))
