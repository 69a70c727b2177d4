"""Bit-level view of integers in the integer encoding: bit(x, b) for 0 <= b < 32,
related by the defining facts of |, &, ^ and << at every use."""
import z3
from .vals import Lin, IV, I
from .exec import zand

BIT = z3.Function('bit', I, I, z3.BoolSort())


def bit(x, b):
    x = Lin.of(x)
    if x.is_const():
        return z3.BoolVal(bool((x.c >> b) & 1))
    return BIT(x.z, z3.IntVal(b))


def install(E, w=32, high=28):
    def op(E_, st, o, width, x, y):
        if width != w:
            return None
        r = E.fresh_int(o)
        st.assume(r >= 0, r < 2 ** w)
        f = {'or': z3.Or, 'and': z3.And, 'xor': z3.Xor}[o]
        for b in range(w):
            st.assume(bit(r, b) == f(bit(x, b), bit(y, b)))
        H = 2 ** high
        if o == 'or':
            for p, q in ((x, y), (y, x)):
                st.assume(z3.Implies(z3.And(p.z < H, q.z % H == 0), r == p.z + q.z))
            st.assume(z3.Implies(z3.And(x.z < H, y.z < H), r < H))
        return IV(w, r, 0, 2 ** w - 1)

    def shl(E_, st, width, x, k):
        if width != w or not x.is_const() or x.c != 1:
            return None
        r = E.fresh_int('pow2')
        st.assume(r >= 1, r < 2 ** w, z3.Implies(k.z < high, r < 2 ** high))
        for b in range(w):
            st.assume(bit(r, b) == (k.z == b))
        return IV(w, r, 0, 2 ** w - 1)

    def shlc(E_, st, width, x, c):
        if width != w:
            return None
        r = E.fresh_int('shl')
        st.assume(r >= 0, r < 2 ** w, z3.Implies(x.z < 2 ** (w - c), r == x.z * 2 ** c), r % 2 ** c == 0)
        for b in range(c):
            st.assume(z3.Not(bit(r, b)))
        return IV(w, r, 0, 2 ** w - 1)
    E.hooks['bitop'], E.hooks['bitshl'], E.hooks['bitshlc'] = op, shl, shlc
