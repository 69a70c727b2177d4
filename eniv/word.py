"""Word arithmetic as terms: exclusive or, wrapping sums, rotations and byte
extraction of 32-bit words over uninterpreted functions, kept in one normal form
(arguments of the associative operations flattened and ordered), so that two
computations of the same word are the same term."""
import z3
from .vals import *
from .exec import *

XOR, ADD, OR = (z3.Function(n, I, I, I) for n in ('xor_word', 'add_word', 'or_word'))
ROL, SHL, SHR, BYTE = (z3.Function(n, I, I, I) for n in ('rotate_left', 'shift_left', 'shift_right', 'byte_of'))


def flat(f, t):
    if z3.is_app(t) and t.decl().eq(f):
        return flat(f, t.arg(0)) + flat(f, t.arg(1))
    return [t]


def chain(f, ts, unit):
    ts = sorted(ts, key=lambda t: (not z3.is_int_value(t), t.get_id()))
    if not ts:
        return z3.IntVal(unit)
    r = ts[0]
    for t in ts[1:]:
        r = f(r, t)
    return r


def xor(a, b):
    c, out = 0, {}
    for t in flat(XOR, a) + flat(XOR, b):
        if z3.is_int_value(t):
            c ^= t.as_long()
        elif t.get_id() in out:
            del out[t.get_id()]
        else:
            out[t.get_id()] = t
    return chain(XOR, ([z3.IntVal(c)] if c else []) + list(out.values()), 0)


def add(a, b):
    c, out = 0, []
    for t in flat(ADD, a) + flat(ADD, b):
        if z3.is_int_value(t):
            c += t.as_long()
        else:
            out.append(t)
    return chain(ADD, ([z3.IntVal(c % 2 ** 32)] if c % 2 ** 32 else []) + out, 0)


def rol(a, k):
    k %= 32
    if k == 0:
        return a
    if z3.is_app(a) and a.decl().eq(ROL):
        return rol(a.arg(0), k + a.arg(1).as_long())
    return ROL(a, z3.IntVal(k))


def byte(a, k):
    return BYTE(a, z3.IntVal(k))


class Words:
    def __init__(self, E, rep=None):
        self.E, self.rep0, self.eqs = E, rep, {}
        E.hooks['word'] = self.op

    def rep(self, st, t):
        """a term known to be equal to t, by the facts on the path"""
        if z3.is_const(t) and not z3.is_int_value(t):
            for f in st.pc:
                d = self.eqs.get(f.get_id())
                if d is None:
                    d = {}
                    for g in (f.children() if z3.is_and(f) else [f]):
                        if z3.is_eq(g) and z3.is_const(g.arg(0)) and not z3.is_int_value(g.arg(0)) and z3.is_app(g.arg(1)) and g.arg(1).num_args() == 1:
                            d[g.arg(0).get_id()] = g.arg(1)
                    self.eqs[f.get_id()] = (f, d)
                else:
                    d = d[1]
                if t.get_id() in d:
                    return d[t.get_id()]
        if self.rep0:
            return self.rep0(st, t)
        return t

    def term(self, st, v):
        return self.rep(st, z3.simplify(self.E.u(st, v).z))

    def op(self, E, st, op, w, a, b):
        """None: not a word operation"""
        if w != 32 or not isinstance(a, IV) or not isinstance(b, IV) or a.lin.is_const() and b.lin.is_const():
            return None
        M = 2 ** w
        hi = lambda v: v.hi if v.lo is not None and v.lo >= 0 and v.hi < M else M - 1
        c = b.lin.c if b.lin.is_const() else 0
        if op in ('urem', 'udiv') and c > 1 and c & (c - 1) == 0:
            op, b = ('and', IV(w, c - 1)) if op == 'urem' else ('lshr', IV(w, c.bit_length() - 1))
        if op == 'xor':
            h = max(hi(a), hi(b))
            return IV(w, xor(self.term(st, a), self.term(st, b)), 0, 2 ** h.bit_length() - 1)
        if op == 'add' and not a.lin.is_const() and not b.lin.is_const() and hi(a) + hi(b) >= M:
            return IV(w, add(self.term(st, a), self.term(st, b)), 0, M - 1)
        if op in ('shl', 'lshr') and b.lin.is_const() and 0 < b.lin.c < w:
            k = b.lin.c
            if op == 'shl':
                if hi(a) << k < M:
                    return IV(w, E.u(st, a).scale(2 ** k), 0, hi(a) << k)
                return IV(w, SHL(self.term(st, a), z3.IntVal(k)), 0, M - 1)
            t = self.term(st, a)
            r = SHR(t, z3.IntVal(k))
            if k % 8 == 0:
                st.assume(r % 256 == byte(t, k // 8))
            return IV(w, r, 0, hi(a) >> k)
        if op in ('or', 'add') and not a.lin.is_const() and not b.lin.is_const():
            x, y = self.E.u(st, a).z, self.E.u(st, b).z
            for p, q in ((x, y), (y, x)):
                if p.decl().eq(SHL) and q.decl().eq(SHR) and p.arg(0).eq(q.arg(0)) and p.arg(1).as_long() + q.arg(1).as_long() == w:
                    return IV(w, rol(p.arg(0), p.arg(1).as_long()), 0, M - 1)
            if op == 'or':
                return IV(w, chain(OR, flat(OR, x) + flat(OR, y), 0), 0, M - 1)
            return None
        if op == 'and':
            c, v = (a, b) if a.lin.is_const() else (b, a)
            if c.lin.is_const() and c.lin.c == 255:
                t = self.E.u(st, v).z
                if t.decl().eq(SHR) and t.arg(1).as_long() % 8 == 0:
                    return IV(w, byte(t.arg(0), t.arg(1).as_long() // 8), 0, 255)
                if hi(v) > 255:
                    return IV(w, byte(self.term(st, v), 0), 0, 255)
            if c.lin.is_const():
                return IV(w, E.mask(self.term(st, v), c.lin.c, w), 0, c.lin.c)
        return None
