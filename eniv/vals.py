"""Symbolic values: linear integer forms, pointers, aggregates."""
import z3

I = z3.IntSort()


class Lin:
    """sum coeff*atom + const over mathematical integers; atoms are z3 Int terms"""
    __slots__ = ('d', 'c', '_z')

    def __init__(self, d=None, c=0):
        self.d = d or {}
        self.c = c
        self._z = None

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, int):
            return Lin(None, x)
        if z3.is_int_value(x):
            return Lin(None, x.as_long())
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_ADD:
            r = Lin()
            for ch in x.children():
                r = r + Lin.of(ch)
            return r
        if k == z3.Z3_OP_SUB:
            ch = x.children()
            r = Lin.of(ch[0])
            for c in ch[1:]:
                r = r - Lin.of(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return Lin.of(x.arg(0)).scale(-1)
        if k == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            return Lin.of(x.arg(1)).scale(x.arg(0).as_long())
        return Lin({x.get_id(): (x, 1)}, 0)

    def is_const(self):
        return not self.d

    def __add__(self, o):
        o = Lin.of(o)
        if not o.d:
            r = Lin(self.d, self.c + o.c)
            return r
        if not self.d:
            return Lin(o.d, self.c + o.c)
        d = dict(self.d)
        for k, (t, n) in o.d.items():
            if k in d:
                m = d[k][1] + n
                if m:
                    d[k] = (t, m)
                else:
                    del d[k]
            else:
                d[k] = (t, n)
        return Lin(d, self.c + o.c)

    def scale(self, n):
        if n == 0:
            return Lin(None, 0)
        if n == 1:
            return self
        return Lin({k: (t, m * n) for k, (t, m) in self.d.items()}, self.c * n)

    def __sub__(self, o):
        return self + Lin.of(o).scale(-1)

    def divisible(self, n):
        return self.c % n == 0 and all(m % n == 0 for _, m in self.d.values())

    def exact_div(self, n):
        return Lin({k: (t, m // n) for k, (t, m) in self.d.items()}, self.c // n)

    def key(self):
        return (self.c, tuple(sorted((k, m) for k, (_, m) in self.d.items())))

    @property
    def z(self):
        if self._z is None:
            if not self.d:
                self._z = z3.IntVal(self.c)
            else:
                ts = [t if m == 1 else m * t for t, m in self.d.values()]
                if self.c:
                    ts.append(z3.IntVal(self.c))
                self._z = ts[0] if len(ts) == 1 else z3.Sum(ts)
        return self._z

    def __repr__(self):
        return 'Lin(%s)' % self.z


class IV:
    """w-bit integer; lin is a mathematical integer congruent to it mod 2^w;
    lo/hi are statically known bounds of lin (or None)."""
    __slots__ = ('w', 'lin', 'lo', 'hi')

    def __init__(self, w, lin, lo=None, hi=None):
        self.w = w
        self.lin = Lin.of(lin)
        if self.lin.is_const():
            lo = hi = self.lin.c
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return 'i%d:%s' % (self.w, self.lin.z)


class BV:
    __slots__ = ('w', 't')

    def __init__(self, w, t):
        self.w, self.t = w, t

    def __repr__(self):
        return 'bv%d:%s' % (self.w, self.t)


class B1:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'i1:%s' % self.t


class Ptr:
    """base: region id, or None for an absolute address (null, sentinel, abstract heap pointer)"""
    __slots__ = ('base', 'off')

    def __init__(self, base, off=0):
        self.base, self.off = base, Lin.of(off)

    def __add__(self, n):
        return Ptr(self.base, self.off + Lin.of(n))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.base, self.off.z)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Undef:
    __slots__ = ('ty',)

    def __init__(self, ty=None):
        self.ty = ty


class Agg:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = list(e)

    def __repr__(self):
        return 'Agg%r' % (self.e,)


class Opaque:
    """any value the engine only moves around (floats, abstract library handles)"""
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v


NULL = Ptr(None, 0)


def pat_ok(t):
    """usable as a quantifier pattern: no interpreted ite/store/arithmetic at the top"""
    st = [t]
    n = 0
    while st:
        x = st.pop()
        n += 1
        if n > 400:
            return False
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_LE, z3.Z3_OP_GE):
            return False
        st.extend(x.children())
    return True


def FA(vs, body, *pats, patterns=()):
    """universal quantification with the given patterns where they are legal"""
    vs = [vs] if isinstance(vs, z3.ExprRef) else list(vs)
    if isinstance(body, bool):
        return z3.BoolVal(body)
    ps = []
    for p in list(pats) + list(patterns):
        q = p if isinstance(p, (list, tuple)) else [p]
        if all(pat_ok(x) for x in q):
            ps.append(q[0] if len(q) == 1 else z3.MultiPattern(*q))
    try:
        return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)
    except z3.Z3Exception:
        return z3.ForAll(vs, body)
