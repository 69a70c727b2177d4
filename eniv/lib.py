"""Trusted contracts for libc and libstdc++ (never verified here, listed in the evidence).

std::string: an object at (base, off) owns a data region (kind 'str') with a
ghost length; content is the byte array of that region, with a NUL at [length].
"""
import re, z3
from .vals import Lin, IV, BV, B1, Ptr, Fn, Undef, Agg, Opaque, NULL, I, FA
from .exec import Engine, Unsupported, Outcome, zand, zor, znot, zbool, zite
from .ir import demangle, Ty
from .build import norm

BYTE = (0, 1, 'i')
MAXLEN = 2 ** 62


class Bytes:
    """a readable run of bytes: at(k) gives the z3 term of byte k"""

    def __init__(self, at, arr=None, off=None):
        self.at, self.arr, self.off = at, arr, off


def skey(E, st, p):
    if isinstance(p, Undef):
        raise Unsupported('string at an indeterminate address')
    if p.base is None:
        h = E.hooks.get('str_raw')
        if h:
            return h(E, st, p)
        E.oblige(st, False, 'string object through a null or unknown pointer')
        raise Unsupported('string at unknown address %s' % p.off.z)
    if not p.off.is_const():
        raise Unsupported('string at a symbolic offset')
    return ('s', p.base, p.off.c)


def sdata(E, st, p):
    """data region id of the string object at p"""
    k = skey(E, st, p)
    D = st.g.get(k)
    if D is None:
        h = E.hooks.get('str_lazy')
        if h:
            D = h(E, st, p, k)
        if D is None:
            E.oblige(st, False, 'string object used outside its lifetime')
            raise Unsupported('no string at %r' % (k,))
    return D


def slen(E, st, p):
    return Lin.of(st.g[('n', sdata(E, st, p))])


def sarr(E, st, p):
    return E.get_arr(st, sdata(E, st, p), BYTE)


def new_data(E, st, arr, n, kind='str'):
    r = E.new_region(st, kind, 0, 1, kind, 'sym', True, ty='arr', arrs={BYTE: arr})
    st.g[('n', r.rid)] = Lin.of(n).z
    return r.rid


def mk_string(E, st, p, arr, n):
    """construct a string object at p with content arr[0..n)"""
    if p.base is not None:
        E.bounds(st, p, 32, 'string construction')
    arr = nul(arr, n)
    st.g[skey(E, st, p)] = new_data(E, st, arr, n)


def sym_string(E, st, p, name='s'):
    """an arbitrary string at p (precondition)"""
    a = z3.Const(E.sym('arr_' + name), z3.ArraySort(I, I))
    n = z3.Int(E.sym('len_' + name))
    st.assume(n >= 0, n < MAXLEN, z3.Select(a, n) == 0)
    D = new_data(E, st, a, n)
    E.regions[D].fresh = False
    st.g[skey(E, st, p)] = D
    return a, n


def nul(arr, n):
    n = Lin.of(n).z
    if arr.decl().kind() == z3.Z3_OP_STORE and arr.arg(1).eq(n) and z3.is_int_value(arr.arg(2)) and arr.arg(2).as_long() == 0:
        return arr
    return z3.Store(arr, n, z3.IntVal(0))


def set_content(E, st, p, arr, n):
    D = sdata(E, st, p)
    E.rs_w(st, D).arrs[BYTE] = nul(arr, n)
    st.g[('n', D)] = Lin.of(n).z
    E.oblige_len(st, n) if hasattr(E, 'oblige_len') else None


EMPTY = z3.K(I, z3.IntVal(0))


def bytes_at(E, st, p, n, what='read'):
    """n readable bytes at pointer p"""
    n = Lin.of(n)
    if n.is_const() and n.c == 0:
        return Bytes(lambda k: z3.IntVal(0))
    if isinstance(p, Undef):
        E.oblige(st, False, '%s through an indeterminate pointer' % what)
        raise Unsupported('bytes at undef')
    if p.base is None:
        h = E.hooks.get('raw_bytes')
        if h:
            return h(E, st, p, n, what)
        E.oblige(st, n.z == 0, '%s through a null or unknown pointer' % what)
        return Bytes(lambda k: z3.IntVal(0))
    E.bounds(st, p, n, what)
    r = E.regions[p.base]
    E.tail(st, r, p)
    if E.cellmode(st, r) and not r.stride:
        if n.is_const() and p.off.is_const() and n.c <= 256:
            ts = [E.u(st, E.load_cell(st, r, p.off.c + i, 1, Ty('int', 8))).z for i in range(n.c)]
            arr = EMPTY
            for i, t in enumerate(ts):
                arr = z3.Store(arr, i, t)
            return Bytes(lambda k: z3.Select(arr, Lin.of(k).z), arr, Lin(None, 0))
        r.stride = 1
    if not r.stride:
        r.stride = 1
    if E.cellmode(st, r):
        E.to_arrays(st, r)
    if r.stride != 1:
        raise Unsupported('bytes of %s' % r.name)
    arr = E.get_arr(st, p.base, BYTE)
    return Bytes(lambda k: z3.Select(arr, (p.off + Lin.of(k)).z), arr, p.off)


def cstrlen(E, st, p):
    """length of the NUL terminated string at p (trusted strlen)"""
    if isinstance(p, Ptr) and p.base is None:
        h = E.hooks.get('raw_strlen')
        if h:
            return h(E, st, p)
        E.oblige(st, False, 'string length of a null or unknown pointer')
        raise Unsupported('strlen of unknown')
    r = E.regions[p.base]
    rs = st.mem[p.base]
    if not rs.alive:
        E.oblige(st, False, 'strlen of %s after its lifetime' % r.name)
    E.tail(st, r, p)
    if E.cellmode(st, r) and p.off.is_const() and r.kind == 'global':
        k = p.off.c
        while k in rs.cells:
            v = E.u(st, rs.cells[k][1])
            if not v.is_const():
                break
            if v.c == 0:
                return Lin(None, k - p.off.c)
            k += 1
    if r.stride is None:
        r.stride = 1
    if E.cellmode(st, r):
        E.to_arrays(st, r)
    if r.stride != 1:
        raise Unsupported('strlen of %s' % r.name)
    arr = E.get_arr(st, p.base, BYTE)
    size = E.size_of(st, r)
    if r.kind == 'global' and r.const and p.off.is_const() and size.is_const() and size.c <= 4096:
        for k in range(p.off.c, size.c):
            v = z3.simplify(z3.Select(arr, k))
            if not z3.is_int_value(v):
                break
            if v.as_long() == 0:
                return Lin(None, k - p.off.c)
    # some NUL must exist in the object from p on
    ex = st.g.get(('nul', p.base))
    last = (size - 1)
    E.oblige(st, zand(p.off.z >= 0, p.off.z < size.z), 'strlen within the bounds of %s' % r.name)
    wit = [last] + ([Lin.of(ex)] if ex is not None else [])
    E.oblige(st, zor(*[z3.And(z3.Select(arr, w.z) == 0, w.z >= p.off.z, w.z < size.z) for w in wit]),
             'strlen argument is terminated inside %s' % r.name)
    L = E.fresh_int('strlen')
    k = z3.Int('k!sl')
    st.assume(L >= 0, p.off.z + L < size.z, z3.Select(arr, p.off.z + L) == 0,
              FA([k], z3.Implies(z3.And(p.off.z <= k, k < p.off.z + L), z3.Select(arr, k) != 0),
                        patterns=[z3.Select(arr, k)]))
    for w in wit:
        st.assume(z3.Implies(z3.And(z3.Select(arr, w.z) == 0, w.z >= p.off.z), p.off.z + L <= w.z))
    return Lin.of(L)


def copy_arr(E, st, b, n):
    """array holding bytes b[0..n) at [0..n)"""
    n = Lin.of(n)
    if b.arr is not None and b.off.is_const() and b.off.c == 0:
        return b.arr
    if n.is_const() and n.c <= 64:
        a = EMPTY
        for i in range(n.c):
            a = z3.Store(a, i, b.at(i))
        return a
    a = z3.Const(E.sym('cpy'), z3.ArraySort(I, I))
    k = z3.Int('k!c')
    st.assume(FA([k], z3.Implies(z3.And(0 <= k, k < n.z), z3.Select(a, k) == b.at(Lin.of(k))), z3.Select(a, k)))
    return a


def cat_arr(E, st, arr, n, b, m):
    """arr[0..n) followed by b[0..m)"""
    n, m = Lin.of(n), Lin.of(m)
    if n.is_const() and n.c == 0:
        return copy_arr(E, st, b, m)
    if m.is_const() and m.c <= 64:
        for i in range(m.c):
            arr = z3.Store(arr, (n + i).z, b.at(i))
        return arr
    a = z3.Const(E.sym('cat'), z3.ArraySort(I, I))
    k = z3.Int('k!c')
    st.assume(FA([k], z3.Select(a, k) == z3.If(k < n.z, z3.Select(arr, k), b.at(Lin.of(k) - n)), z3.Select(a, k)))
    return a


def str_eq(E, st, a1, n1, a2, n2):
    k = z3.Int('k!e')
    return z3.And(Lin.of(n1).z == Lin.of(n2).z, FA([k], z3.Implies(z3.And(0 <= k, k < Lin.of(n1).z),
                                                                    z3.Select(a1, k) == z3.Select(a2, k))))


def str_eq_b(E, st, b1, n1, b2, n2):
    """a fresh boolean equal to content equality"""
    n1, n2 = Lin.of(n1), Lin.of(n2)
    if n2.is_const() and not n1.is_const():
        b1, n1, b2, n2 = b2, n2, b1, n1
    if n1.is_const() and n1.c <= 64:
        return zand(n1.z == n2.z, *[b1.at(i) == b2.at(i) for i in range(n1.c)])
    r = E.fresh_bool('streq')
    k = z3.Int('k!e')
    w = E.fresh_int('diff')
    st.assume(z3.Implies(r, n1.z == n2.z),
              z3.Implies(r, FA([k], z3.Implies(z3.And(0 <= k, k < n1.z), b1.at(Lin.of(k)) == b2.at(Lin.of(k))))),
              z3.Implies(z3.And(z3.Not(r), n1.z == n2.z), z3.And(0 <= w, w < n1.z, b1.at(Lin.of(w)) != b2.at(Lin.of(w)))))
    return r


def out_of_range(st):
    return Outcome('throw', st, '_ZTISt12out_of_range')


def length_error(st):
    return Outcome('throw', st, '_ZTISt12length_error')


S = {}


def lib(*names):
    def d(f):
        for n in names:
            S[n] = f
        return f
    return d


def append(E, st, p, b, m):
    n = slen(E, st, p)
    a = cat_arr(E, st, sarr(E, st, p), n, b, m)
    st.assume((n + m).z < MAXLEN)
    set_content(E, st, p, a, n + m)
    return p


def c8(E, st, v):
    return E.u(st, v).z


@lib('basic_string()', 'basic_string(std::allocator<char> const&)')
def _(E, st, a):
    mk_string(E, st, a[0], EMPTY, 0)


@lib('basic_string(std::string const&)')
def _(E, st, a):
    mk_string(E, st, a[0], sarr(E, st, a[1]), slen(E, st, a[1]))


@lib('basic_string(std::string&&)')
def _(E, st, a):
    E.bounds(st, a[0], 32, 'string construction')
    D = sdata(E, st, a[1])
    st.g[skey(E, st, a[0])] = D
    st.g[skey(E, st, a[1])] = new_data(E, st, EMPTY, 0)


@lib('basic_string(char const*, std::allocator<char> const&)', 'basic_string<std::allocator<char> >(char const*, std::allocator<char> const&)',
     'basic_string<void>(char const*, std::allocator<char> const&)')
def _(E, st, a):
    n = cstrlen(E, st, a[1])
    mk_string(E, st, a[0], copy_arr(E, st, bytes_at(E, st, a[1], n), n), n)


@lib('basic_string(char const*, unsigned long, std::allocator<char> const&)')
def _(E, st, a):
    n = E.u(st, a[2])
    E.oblige(st, zand(n.z < MAXLEN), 'string length representable')
    mk_string(E, st, a[0], copy_arr(E, st, bytes_at(E, st, a[1], n), n), n)


@lib('basic_string(unsigned long, char, std::allocator<char> const&)',
     'basic_string<std::allocator<char> >(unsigned long, char, std::allocator<char> const&)')
def _(E, st, a):
    n = E.u(st, a[1])
    E.oblige(st, zand(n.z < MAXLEN), 'string length representable')
    mk_string(E, st, a[0], z3.K(I, c8(E, st, a[2])), n)


def iter_ctor(E, st, a, dm):
    """string(first, last) for char pointers / string iterators"""
    p, q = a[1], a[2]
    if not (isinstance(p, Ptr) and isinstance(q, Ptr)):
        raise Unsupported('iterator range')
    if p.base != q.base:
        E.oblige(st, False, 'iterator range within one object')
        raise Unsupported('iterator range')
    n = q.off - p.off
    E.oblige(st, n.z >= 0 if not n.is_const() else n.c >= 0, 'iterator range is ordered')
    mk_string(E, st, a[0], copy_arr(E, st, bytes_at(E, st, p, n), n), n)


def rev_ctor(E, st, a, dm):
    """string(rfirst, rlast): bytes (rlast.base .. rfirst.base) in opposite order"""
    def it(x):
        # reverse_iterator passed by address
        return E.load(st, x, Ty('ptr'))
    p, q = it(a[1]), it(a[2])
    if not (isinstance(p, Ptr) and isinstance(q, Ptr)) or p.base != q.base:
        E.oblige(st, False, 'iterator range within one object')
        raise Unsupported('iterator range')
    n = p.off - q.off
    E.oblige(st, n.z >= 0 if not n.is_const() else n.c >= 0, 'iterator range is ordered')
    b = bytes_at(E, st, q, n)
    arr = z3.Const(E.sym('rev'), z3.ArraySort(I, I))
    k = z3.Int('k!r')
    st.assume(FA([k], z3.Implies(z3.And(0 <= k, k < n.z), z3.Select(arr, k) == b.at(n - 1 - Lin.of(k))), z3.Select(arr, k)))
    mk_string(E, st, a[0], arr, n)


@lib('~basic_string()')
def _(E, st, a):
    k = skey(E, st, a[0])
    D = sdata(E, st, a[0])
    E.rs_w(st, D).alive = False
    st.g[k] = None


@lib('operator=(std::string const&)', 'assign(std::string const&)')
def _(E, st, a):
    if sdata(E, st, a[0]) != sdata(E, st, a[1]):
        set_content(E, st, a[0], sarr(E, st, a[1]), slen(E, st, a[1]))
    return a[0]


@lib('operator=(std::string&&)', 'assign(std::string&&)')
def _(E, st, a):
    if sdata(E, st, a[0]) != sdata(E, st, a[1]):
        set_content(E, st, a[0], sarr(E, st, a[1]), slen(E, st, a[1]))
        set_content(E, st, a[1], EMPTY, 0)
    return a[0]


@lib('operator=(char const*)', 'assign(char const*)')
def _(E, st, a):
    n = cstrlen(E, st, a[1])
    set_content(E, st, a[0], copy_arr(E, st, bytes_at(E, st, a[1], n), n), n)
    return a[0]


@lib('operator=(char)')
def _(E, st, a):
    set_content(E, st, a[0], z3.Store(EMPTY, 0, c8(E, st, a[1])), 1)
    return a[0]


@lib('assign(char const*, unsigned long)')
def _(E, st, a):
    n = E.u(st, a[2])
    E.oblige(st, zand(n.z < MAXLEN), 'string length representable')
    set_content(E, st, a[0], copy_arr(E, st, bytes_at(E, st, a[1], n), n), n)
    return a[0]


@lib('assign(unsigned long, char)')
def _(E, st, a):
    n = E.u(st, a[1])
    E.oblige(st, zand(n.z < MAXLEN), 'string length representable')
    set_content(E, st, a[0], z3.K(I, c8(E, st, a[2])), n)
    return a[0]


@lib('size() const', 'length() const')
def _(E, st, a):
    return IV(64, slen(E, st, a[0]), 0, MAXLEN)


@lib('capacity() const')
def _(E, st, a):
    v = E.fresh_iv(st, 64, 'cap')
    st.assume(v.lin.z >= slen(E, st, a[0]).z)
    return v


@lib('empty() const')
def _(E, st, a):
    n = slen(E, st, a[0])
    return B1(n.c == 0 if n.is_const() else n.z == 0)


@lib('c_str() const', 'data() const', 'data()', 'begin()', 'begin() const', 'cbegin() const')
def _(E, st, a):
    return Ptr(sdata(E, st, a[0]), 0)


@lib('end()', 'end() const', 'cend() const')
def _(E, st, a):
    return Ptr(sdata(E, st, a[0]), slen(E, st, a[0]))


@lib('operator[](unsigned long)', 'operator[](unsigned long) const')
def _(E, st, a):
    i = E.u(st, a[1])
    E.oblige(st, zand(i.z <= slen(E, st, a[0]).z), 'string index within its length')
    return Ptr(sdata(E, st, a[0]), i)


@lib('front()', 'front() const')
def _(E, st, a):
    E.oblige(st, zand(slen(E, st, a[0]).z > 0), 'front of a non-empty string')
    return Ptr(sdata(E, st, a[0]), 0)


@lib('back()', 'back() const')
def _(E, st, a):
    E.oblige(st, zand(slen(E, st, a[0]).z > 0), 'back of a non-empty string')
    return Ptr(sdata(E, st, a[0]), slen(E, st, a[0]) - 1)


@lib('at(unsigned long)', 'at(unsigned long) const')
def _(E, st, a):
    i = E.u(st, a[1])
    c = i.z < slen(E, st, a[0]).z
    outs = []
    if E.P.feasible(st, z3.Not(c)):
        s2 = st.clone()
        s2.assume(z3.Not(c))
        outs.append(out_of_range(s2))
    st.assume(c)
    outs.append(Outcome('ret', st, Ptr(sdata(E, st, a[0]), i)))
    return outs


@lib('push_back(char)', 'operator+=(char)')
def _(E, st, a):
    c = c8(E, st, a[1])
    append(E, st, a[0], Bytes(lambda k: c), Lin(None, 1))
    return a[0]


@lib('append(unsigned long, char)')
def _(E, st, a):
    c = c8(E, st, a[2])
    append(E, st, a[0], Bytes(lambda k: c), E.u(st, a[1]))
    return a[0]


@lib('append(std::string const&)', 'operator+=(std::string const&)')
def _(E, st, a):
    n = slen(E, st, a[1])
    arr = sarr(E, st, a[1])
    append(E, st, a[0], Bytes(lambda k: z3.Select(arr, Lin.of(k).z), arr, Lin(None, 0)), n)
    return a[0]


@lib('append(char const*)', 'operator+=(char const*)')
def _(E, st, a):
    n = cstrlen(E, st, a[1])
    append(E, st, a[0], bytes_at(E, st, a[1], n), n)
    return a[0]


@lib('append(char const*, unsigned long)')
def _(E, st, a):
    n = E.u(st, a[2])
    append(E, st, a[0], bytes_at(E, st, a[1], n), n)
    return a[0]


def insert_at(E, st, p, pos, b, m):
    n = slen(E, st, p)
    arr = sarr(E, st, p)
    out = z3.Const(E.sym('ins'), arr.sort())
    k = z3.Int('k!is')
    st.assume((n + m).z < MAXLEN)
    q = pos.z
    st.assume(FA([k], z3.Select(out, k) == z3.If(k < q, z3.Select(arr, k), z3.If(k < q + m.z, b.at(Lin.of(k) - pos), z3.Select(arr, k - m.z))), z3.Select(out, k)))
    set_content(E, st, p, out, n + m)


def checked_insert(E, st, a, pos, b, m):
    c = pos.z <= slen(E, st, a[0]).z
    outs = []
    if E.P.feasible(st, z3.Not(c)):
        s2 = st.clone()
        s2.assume(z3.Not(c))
        outs.append(out_of_range(s2))
    st.assume(c)
    insert_at(E, st, a[0], pos, b, m)
    outs.append(Outcome('ret', st, a[0]))
    return outs


@lib('insert(unsigned long, unsigned long, char)')
def _(E, st, a):
    c = c8(E, st, a[3])
    return checked_insert(E, st, a, E.u(st, a[1]), Bytes(lambda k: c), E.u(st, a[2]))


@lib('insert(unsigned long, char const*)')
def _(E, st, a):
    n = cstrlen(E, st, a[2])
    return checked_insert(E, st, a, E.u(st, a[1]), bytes_at(E, st, a[2], n), n)


@lib('insert(unsigned long, std::string const&)')
def _(E, st, a):
    n, arr = slen(E, st, a[2]), sarr(E, st, a[2])
    return checked_insert(E, st, a, E.u(st, a[1]), Bytes(lambda k: z3.Select(arr, Lin.of(k).z), arr, Lin(None, 0)), n)


@lib('erase(unsigned long, unsigned long)')
def _(E, st, a):
    n, pos, m = slen(E, st, a[0]), E.u(st, a[1]), E.u(st, a[2])
    c = pos.z <= n.z
    outs = []
    if E.P.feasible(st, z3.Not(c)):
        s2 = st.clone()
        s2.assume(z3.Not(c))
        outs.append(out_of_range(s2))
    st.assume(c)
    cnt = z3.If(m.z < n.z - pos.z, m.z, n.z - pos.z)
    arr = sarr(E, st, a[0])
    out = z3.Const(E.sym('ers'), arr.sort())
    k = z3.Int('k!er')
    st.assume(FA([k], z3.Select(out, k) == z3.If(k < pos.z, z3.Select(arr, k), z3.Select(arr, k + cnt)), z3.Select(out, k)))
    set_content(E, st, a[0], out, Lin.of(n.z - cnt))
    outs.append(Outcome('ret', st, a[0]))
    return outs


def clipped(E, st, n, pos, m):
    """(outcomes when pos is past the end, length of the part of n bytes from pos, at most m)"""
    c = pos.z <= n.z
    outs = []
    if E.P.feasible(st, z3.Not(c)):
        s2 = st.clone()
        s2.assume(z3.Not(c))
        outs.append(out_of_range(s2))
    st.assume(c)
    if E.decide(st, m.z <= n.z - pos.z):
        return outs, m
    if E.decide(st, m.z >= n.z - pos.z):
        return outs, n - pos
    return outs, Lin.of(z3.If(m.z < n.z - pos.z, m.z, n.z - pos.z))


def replace_at(E, st, a, b, m):
    """string a[0]: the part from a[1] of length a[2] becomes b[0..m)"""
    n, pos = slen(E, st, a[0]), E.u(st, a[1])
    outs, cut = clipped(E, st, n, pos, E.u(st, a[2]))
    arr = sarr(E, st, a[0])
    m = Lin.of(m)
    st.assume((n - cut + m).z < MAXLEN)
    out = z3.Const(E.sym('rpl'), arr.sort())
    k = z3.Int('k!rp')
    st.assume(FA([k], z3.Select(out, k) == z3.If(k < pos.z, z3.Select(arr, k), z3.If(k < (pos + m).z, b.at(Lin.of(k) - pos), z3.Select(
        arr, k - m.z + cut.z))), z3.Select(out, k)))
    set_content(E, st, a[0], out, n - cut + m)
    return outs + [Outcome('ret', st, a[0])]


def of_string(E, st, p):
    arr = sarr(E, st, p)
    return Bytes(lambda k: z3.Select(arr, Lin.of(k).z), arr, Lin(None, 0)), slen(E, st, p)


@lib('replace(unsigned long, unsigned long, std::string const&)')
def _(E, st, a):
    return replace_at(E, st, a, *of_string(E, st, a[3]))


@lib('replace(unsigned long, unsigned long, char const*)')
def _(E, st, a):
    n = cstrlen(E, st, a[3])
    return replace_at(E, st, a, bytes_at(E, st, a[3], n), n)


@lib('replace(unsigned long, unsigned long, char const*, unsigned long)')
def _(E, st, a):
    n = E.u(st, a[4])
    return replace_at(E, st, a, bytes_at(E, st, a[3], n), n)


@lib('replace(unsigned long, unsigned long, unsigned long, char)')
def _(E, st, a):
    c = c8(E, st, a[4])
    return replace_at(E, st, a, Bytes(lambda k: c), E.u(st, a[3]))


def part(E, st, p, pos, m):
    outs, cut = clipped(E, st, slen(E, st, p), pos, m)
    return outs, bytes_at(E, st, Ptr(sdata(E, st, p), pos), cut), cut


NPOS = 2 ** 64 - 1


@lib('assign(std::string const&, unsigned long, unsigned long)')
def _(E, st, a):
    outs, b, n = part(E, st, a[1], E.u(st, a[2]), E.u(st, a[3]))
    set_content(E, st, a[0], copy_arr(E, st, b, n), n)
    return outs + [Outcome('ret', st, a[0])]


@lib('append(std::string const&, unsigned long, unsigned long)')
def _(E, st, a):
    outs, b, n = part(E, st, a[1], E.u(st, a[2]), E.u(st, a[3]))
    append(E, st, a[0], b, n)
    return outs + [Outcome('ret', st, a[0])]


@lib('basic_string(std::string const&, unsigned long, unsigned long)', 'basic_string(std::string const&, unsigned long)',
     'basic_string(std::string const&, unsigned long, std::allocator<char> const&)',
     'basic_string(std::string const&, unsigned long, unsigned long, std::allocator<char> const&)')
def _(E, st, a):
    m = E.u(st, a[3]) if len(a) > 3 and isinstance(a[3], IV) else Lin(None, NPOS)
    outs, b, n = part(E, st, a[1], E.u(st, a[2]), m)
    mk_string(E, st, a[0], copy_arr(E, st, b, n), n)
    return outs + [Outcome('ret', st, None)]


def iter_range(E, st, p, q):
    if not (isinstance(p, Ptr) and isinstance(q, Ptr)):
        raise Unsupported('iterator range')
    if p.base != q.base:
        E.oblige(st, False, 'iterator range within one object')
        raise Unsupported('iterator range')
    n = q.off - p.off
    E.oblige(st, n.z >= 0 if not n.is_const() else n.c >= 0, 'iterator range is ordered')
    return bytes_at(E, st, p, n), n


def iter_append(E, st, a):
    b, n = iter_range(E, st, a[1], a[2])
    append(E, st, a[0], b, n)
    return a[0]


def iter_assign(E, st, a):
    b, n = iter_range(E, st, a[1], a[2])
    set_content(E, st, a[0], copy_arr(E, st, b, n), n)
    return a[0]


@lib('clear()')
def _(E, st, a):
    set_content(E, st, a[0], EMPTY, 0)


@lib('reserve(unsigned long)', 'reserve()', 'shrink_to_fit()')
def _(E, st, a):
    return None


@lib('pop_back()')
def _(E, st, a):
    n = slen(E, st, a[0])
    E.oblige(st, zand(n.z > 0), 'pop_back of a non-empty string')
    set_content(E, st, a[0], sarr(E, st, a[0]), n - 1)


@lib('resize(unsigned long)', 'resize(unsigned long, char)')
def _(E, st, a):
    n, m = slen(E, st, a[0]), E.u(st, a[1])
    c = c8(E, st, a[2]) if len(a) > 2 else z3.IntVal(0)
    E.oblige(st, zand(m.z < MAXLEN), 'string length representable')
    arr = sarr(E, st, a[0])
    d = E.decide(st, m.z <= n.z)
    if d:
        set_content(E, st, a[0], arr, m)
        return
    b = z3.Const(E.sym('rsz'), arr.sort())
    k = z3.Int('k!z')
    st.assume(FA([k], z3.Select(b, k) == z3.If(k < n.z, z3.Select(arr, k), c), z3.Select(b, k)))
    set_content(E, st, a[0], b, m)


@lib('swap(std::string&)')
def _(E, st, a):
    D1, D2 = sdata(E, st, a[0]), sdata(E, st, a[1])
    st.g[skey(E, st, a[0])], st.g[skey(E, st, a[1])] = D2, D1


@lib('substr(unsigned long, unsigned long) const')
def _(E, st, a):
    # sret: a[0] result, a[1] this
    n, i, m = slen(E, st, a[1]), E.u(st, a[2]), E.u(st, a[3])
    c = i.z <= n.z
    outs = []
    if E.P.feasible(st, z3.Not(c)):
        s2 = st.clone()
        s2.assume(z3.Not(c))
        outs.append(out_of_range(s2))
    st.assume(c)
    L = Lin.of(z3.If(m.z < n.z - i.z, m.z, n.z - i.z))
    b = bytes_at(E, st, Ptr(sdata(E, st, a[1]), i), L)
    mk_string(E, st, a[0], copy_arr(E, st, b, L), L)
    outs.append(Outcome('ret', st, None))
    return outs


@lib('compare(char const*) const')
def _(E, st, a):
    n = cstrlen(E, st, a[1])
    b = bytes_at(E, st, a[1], n)
    arr = sarr(E, st, a[0])
    r = str_eq_b(E, st, Bytes(lambda k: z3.Select(arr, Lin.of(k).z)), slen(E, st, a[0]), b, n)
    v = E.fresh_iv(st, 32, 'cmp')
    st.assume((v.lin.z == 0) == zbool(r))
    return v


@lib('compare(std::string const&) const')
def _(E, st, a):
    arr, ar2 = sarr(E, st, a[0]), sarr(E, st, a[1])
    r = str_eq_b(E, st, Bytes(lambda k: z3.Select(arr, Lin.of(k).z)), slen(E, st, a[0]),
                 Bytes(lambda k: z3.Select(ar2, Lin.of(k).z)), slen(E, st, a[1]))
    v = E.fresh_iv(st, 32, 'cmp')
    st.assume((v.lin.z == 0) == zbool(r))
    return v


@lib('get_allocator() const', '_M_get_allocator()', '_M_get_allocator() const')
def _(E, st, a):
    return None


def const_bytes(E, st, p, n):
    """byte values at p when they are constants"""
    b = bytes_at(E, st, p, n)
    out = []
    for i in range(n.c):
        t = z3.simplify(b.at(i))
        if not z3.is_int_value(t):
            raise Unsupported('character set is not constant')
        out.append(t.as_long())
    return out


def in_set(cs, c):
    """membership in a constant set of bytes, as ranges"""
    cs = sorted(set(cs))
    rs = []
    for x in cs:
        if rs and rs[-1][1] == x - 1:
            rs[-1][1] = x
        else:
            rs.append([x, x])
    return z3.Or(*[c == a if a == b else z3.And(c >= a, c <= b) for a, b in rs]) if rs else z3.BoolVal(False)


def find_if(E, st, p, pos, pred):
    """first index >= pos whose byte satisfies pred, or npos"""
    arr, n = sarr(E, st, p), slen(E, st, p)
    r = E.fresh_int('find')
    npos = 2 ** 64 - 1
    k = z3.Int('k!f')
    st.assume(z3.Or(r == npos, z3.And(r >= pos.z, r < n.z, pred(z3.Select(arr, r)))),
              FA([k], z3.Implies(z3.And(pos.z <= k, k < n.z, k < r), z3.Not(pred(z3.Select(arr, k)))), z3.Select(arr, k)))
    return IV(64, r, 0, npos)


@lib('find_first_not_of(char const*, unsigned long) const', 'find_first_of(char const*, unsigned long) const')
def _(E, st, a):
    raise Unsupported('dispatched in string_handler')


@lib('find(char, unsigned long) const', 'find_first_of(char, unsigned long) const')
def _(E, st, a):
    c = c8(E, st, a[1])
    return find_if(E, st, a[0], E.u(st, a[2]), lambda x: x == c)


@lib('find_first_not_of(char, unsigned long) const')
def _(E, st, a):
    c = c8(E, st, a[1])
    return find_if(E, st, a[0], E.u(st, a[2]), lambda x: x != c)


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def string_handler(E, st, args, I_, dm):
    d = norm(dm)
    i = d.find('std::string::')
    m = d[i + len('std::string::'):]
    mm = re.match(r'find_first_(not_)?of\((char const\*|std::string const&), unsigned long\) const$', m)
    if mm:
        if mm.group(2) == 'char const*':
            cs = const_bytes(E, st, args[1], cstrlen(E, st, args[1]))
        else:
            n = slen(E, st, args[1])
            if not n.is_const():
                return NotImplemented
            cs = const_bytes(E, st, Ptr(sdata(E, st, args[1]), 0), n)
        return find_if(E, st, args[0], E.u(st, args[2]), (lambda x: z3.Not(in_set(cs, x))) if mm.group(1) else (lambda x: in_set(cs, x)))
    f = S.get(m)
    if f is None:
        if re.match(r'basic_string<(char\*|char const\*|unsigned char\*|__gnu_cxx::__normal_iterator<(char|char const|unsigned char)\*.*), void>\(', m):
            return iter_ctor(E, st, args, m)
        if re.match(r'basic_string<std::reverse_iterator<.*, void>\(', m):
            return rev_ctor(E, st, args, m)
        r = re.match(r'(std::string& )?(append|assign)<(char\*|char const\*|unsigned char\*|__gnu_cxx::__normal_iterator<(char|char const|unsigned char)\*.*), void>\(', m)
        if r:
            return (iter_append if r.group(2) == 'append' else iter_assign)(E, st, args)
        return NotImplemented
    r = f(E, st, args)
    return r


def free_string_ops(E, st, args, I_, dm):
    d = norm(dm)
    m = re.match(r'(bool |std::string )?(?:std::)?operator(==|!=|\+)<.*>\((.*)\)$', d)
    if not m:
        return NotImplemented
    ps = split_args(m.group(3))
    op = m.group(2)

    def operand(p, v):
        if p.startswith('std::string'):
            arr = sarr(E, st, v)
            return Bytes(lambda k: z3.Select(arr, Lin.of(k).z), arr, Lin(None, 0)), slen(E, st, v)
        if p == 'char const*':
            n = cstrlen(E, st, v)
            return bytes_at(E, st, v, n), n
        if p == 'char':
            c = c8(E, st, v)
            return Bytes(lambda k: c), Lin(None, 1)
        raise Unsupported('string operator operand ' + p)
    if op == '+':
        b1, n1 = operand(ps[0], args[1])
        b2, n2 = operand(ps[1], args[2])
        a = copy_arr(E, st, b1, n1)
        a = cat_arr(E, st, a, n1, b2, n2)
        mk_string(E, st, args[0], a, n1 + n2)
        return None
    b1, n1 = operand(ps[0], args[0])
    b2, n2 = operand(ps[1], args[1])
    r = str_eq_b(E, st, b1, n1, b2, n2)
    return B1(r if op == '==' else znot(r))


def is_string_member(name, dm):
    d = norm(dm)
    return d.startswith('std::string::')


def is_free_string_op(name, dm):
    d = norm(dm)
    return bool(re.match(r'(bool |std::string )?(?:std::)?operator(==|!=|\+)<char, ', d)) and 'std::string' in d


def ctype(E, st, args, I_, dm):
    """isdigit & co. in the C locale; glibc accepts -128..255"""
    nm = dm.split('(')[0]
    x = E.s(st, args[0]).z
    E.oblige(st, zand(x >= -128, x <= 255), '%s argument within glibc table' % nm, tag='ctype')
    r = lambda a, b: z3.And(x >= ord(a), x <= ord(b))
    f = {'isdigit': lambda: r('0', '9'), 'isupper': lambda: r('A', 'Z'), 'islower': lambda: r('a', 'z'),
         'isalpha': lambda: z3.Or(r('A', 'Z'), r('a', 'z')), 'isalnum': lambda: z3.Or(r('A', 'Z'), r('a', 'z'), r('0', '9')),
         'isxdigit': lambda: z3.Or(r('0', '9'), r('a', 'f'), r('A', 'F')),
         'isspace': lambda: z3.Or(x == 32, z3.And(x >= 9, x <= 13)),
         'isprint': lambda: z3.And(x >= 32, x < 127), 'iscntrl': lambda: z3.Or(z3.And(x >= 0, x < 32), x == 127)}
    if nm in ('tolower', 'toupper'):
        t = z3.If(r('A', 'Z'), x + 32, x) if nm == 'tolower' else z3.If(r('a', 'z'), x - 32, x)
        v = E.fresh_iv(st, 32, nm)
        st.assume(z3.If(t < 0, v.lin.z == t + 2 ** 32, v.lin.z == t))
        return v
    v = E.fresh_iv(st, 32, nm)
    st.assume((v.lin.z != 0) == f[nm]())
    return v


CT = {'isdigit', 'isupper', 'islower', 'isalpha', 'isalnum', 'isxdigit', 'isspace', 'isprint', 'iscntrl', 'tolower',
      'toupper'}


def h_strlen(E, st, args, I_, dm):
    return IV(64, cstrlen(E, st, args[0]), 0, MAXLEN)


def h_strdup(E, st, args, I_, dm):
    n = cstrlen(E, st, args[0])
    b = bytes_at(E, st, args[0], n)
    r = E.new_region(st, 'strdup', n + 1, 1, 'malloc', 'uninit', True, ty='arr')
    E.rs_w(st, r.rid).arrs[BYTE] = nul(copy_arr(E, st, b, n), n)
    st.g[('nul', r.rid)] = n.z
    return Ptr(r.rid, 0)


def h_strcmp(E, st, args, I_, dm):
    n1, n2 = cstrlen(E, st, args[0]), cstrlen(E, st, args[1])
    r = str_eq_b(E, st, bytes_at(E, st, args[0], n1), n1, bytes_at(E, st, args[1], n2), n2)
    v = E.fresh_iv(st, 32, 'cmp')
    st.assume((v.lin.z == 0) == zbool(r))
    return v


def h_memcmp(E, st, args, I_, dm):
    n = E.u(st, args[2])
    r = str_eq_b(E, st, bytes_at(E, st, args[0], n), n, bytes_at(E, st, args[1], n), n)
    v = E.fresh_iv(st, 32, 'cmp')
    st.assume((v.lin.z == 0) == zbool(r))
    return v


def allocator_noop(E, st, args, I_, dm):
    return None


# ---------------------------------------------------------------- output streams
DECARR = z3.Function('decimal_text', I, z3.ArraySort(I, I))
DECLEN = z3.Function('decimal_length', I, I)


def okey(p):
    if not isinstance(p, Ptr) or p.base is None or not p.off.is_const():
        raise Unsupported('stream at unknown address')
    return ('o', p.base, p.off.c)


def open_stream(E, st, p, name='out', sym=False):
    """an output stream at p; its written text is a ghost byte sequence"""
    a, n = EMPTY, Lin(None, 0)
    if sym:
        a = z3.Const(E.sym('pre_' + name), z3.ArraySort(I, I))
        n = Lin.of(z3.Int(E.sym('prelen_' + name)))
        st.assume(n.z >= 0, n.z < MAXLEN)
    D = new_data(E, st, nul(a, n), n)
    st.g[okey(p)] = D
    for k in FMT0:
        fset(st, p, k, FMT0[k])
    return D


def odata(E, st, p):
    D = st.g.get(okey(p))
    if D is None:
        raise Unsupported('stream %r not open' % (okey(p),))
    return D


def oappend(E, st, p, b, m):
    D = odata(E, st, p)
    n = Lin.of(st.g[('n', D)])
    m = Lin.of(m)
    a = cat_arr(E, st, E.get_arr(st, D, BYTE), n, b, m)
    st.assume((n + m).z < MAXLEN)
    E.rs_w(st, D).arrs[BYTE] = nul(a, n + m)
    st.g[('n', D)] = (n + m).z


def dec_bytes(E, st, x):
    st.assume(DECLEN(x) >= 1, DECLEN(x) < 2 ** 20)
    return Bytes(lambda k: z3.Select(DECARR(x), Lin.of(k).z), DECARR(x), Lin(None, 0)), Lin.of(DECLEN(x))


FMT0 = {'base': 10, 'width': 0, 'fill': 32, 'alpha': 0, 'odd': 0}


def fget(st, p, k):
    return st.g.get(('ofmt', k) + okey(p)[1:], z3.IntVal(FMT0[k]))


def fset(st, p, k, v):
    st.g[('ofmt', k) + okey(p)[1:]] = v if isinstance(v, z3.ExprRef) else z3.IntVal(v)


def fconst(E, st, p, k):
    """the formatting state as a constant, or None when not determined"""
    t = z3.simplify(fget(st, p, k))
    if z3.is_int_value(t):
        return t.as_long()
    for c in (FMT0[k], 10, 16, 0, 1, 2, 48):
        if E.P.valid_quick(st, t == c):
            return c
    return None


def unknown_text(E, st):
    a = z3.Const(E.sym('fmt'), z3.ArraySort(I, I))
    n = Lin.of(E.fresh_int('fmtlen'))
    st.assume(n.z >= 0, n.z < 4096)
    return Bytes(lambda k: z3.Select(a, Lin.of(k).z), a, Lin(None, 0)), n


def hexdigit(d):
    return z3.If(d < 10, d + 48, d + 87)


def padded(E, st, p, b, n):
    """field width and fill; the width is consumed"""
    w, odd = fconst(E, st, p, 'width'), fconst(E, st, p, 'odd')
    fill = fget(st, p, 'fill')
    fset(st, p, 'width', 0)
    if w == 0:
        return b, n
    if w is None or odd != 0:
        return unknown_text(E, st)
    n = Lin.of(n)
    pad = z3.If(n.z < w, w - n.z, z3.IntVal(0))
    if E.decide(st, n.z < w) is not None:
        pad = z3.IntVal(0) if E.decide(st, n.z >= w) else w - n.z
    return Bytes(lambda k: z3.If(Lin.of(k).z < pad, fill, b.at(Lin.of(k) - Lin.of(pad)))), n + Lin.of(pad) if not z3.is_app_of(pad, z3.Z3_OP_ITE) else Lin.of(z3.If(n.z < w, z3.IntVal(w), n.z))


def out_number(E, st, p, x, uns, w):
    """x: unsigned reading; decimal prints the signed value of signed types"""
    base, odd = fconst(E, st, p, 'base'), fconst(E, st, p, 'odd')
    if odd != 0 or base is None:
        b, n = unknown_text(E, st)
    elif base == 10:
        b, n = dec_bytes(E, st, uns)
    elif base == 16 and E.P.valid_quick(st, z3.And(w >= 0, w < 256)):
        one = w < 16
        n = Lin.of(z3.If(one, z3.IntVal(1), z3.IntVal(2)))
        b = Bytes(lambda k: z3.If(z3.And(Lin.of(k).z == 0, z3.Not(one)), hexdigit(w / 16), hexdigit(w % 16)))
    else:
        b, n = unknown_text(E, st)
    b, n = padded(E, st, p, b, n)
    oappend(E, st, p, b, n)


def out_text(E, st, p, b, n):
    b, n = padded(E, st, p, b, n)
    oappend(E, st, p, b, n)


def ostream_handler(E, st, args, I_, dm):
    d = norm(dm)
    p = args[0]
    if re.match(r'(std::ostream& )?std::operator<< ?<.*>\(std::ostream&, char const\*\)$', d):
        n = cstrlen(E, st, args[1])
        out_text(E, st, p, bytes_at(E, st, args[1], n), n)
        return p
    if re.match(r'(std::ostream& )?std::operator<< ?<.*>\(std::ostream&, (unsigned |signed )?char\)$', d):
        c = c8(E, st, args[1])
        out_text(E, st, p, Bytes(lambda k: c), Lin(None, 1))
        return p
    if re.match(r'(std::ostream& )?std::operator<< ?<.*>\(std::ostream&, std::string const&\)$', d):
        arr = sarr(E, st, args[1])
        out_text(E, st, p, Bytes(lambda k: z3.Select(arr, Lin.of(k).z), arr, Lin(None, 0)), slen(E, st, args[1]))
        return p
    if re.match(r'(std::ostream& )?std::operator<< ?<.*>\(std::ostream&, std::_Set(fill<char>|w)\)$', d):
        v = E.u(st, args[1])
        fset(st, p, 'fill' if 'Setfill' in d else 'width', v.z)
        return p
    if re.match(r'(std::ostream& )?std::__ostream_insert<', d):
        n = E.s(st, args[2])
        oappend(E, st, p, bytes_at(E, st, args[1], n), n)
        return p
    m = re.match(r'std::ostream::(.*)$', d)
    if m:
        k = m.group(1)
        if k == 'put(char)':
            c = c8(E, st, args[1])
            oappend(E, st, p, Bytes(lambda k: c), 1)
            return p
        if k == 'write(char const*, long)':
            n = E.s(st, args[2])
            E.oblige(st, n.z >= 0 if not n.is_const() else n.c >= 0, 'write length not negative')
            oappend(E, st, p, bytes_at(E, st, args[1], n), n)
            return p
        if k == 'flush()':
            return p
        if re.match(r'operator<<\((unsigned )?(int|long|long long|short)\)$', k):
            uns = 'unsigned' in k
            out_number(E, st, p, None, (E.u(st, args[1]) if uns else E.s(st, args[1])).z, E.u(st, args[1]).z)
            return p
        if k == 'operator<<(bool)' :
            t = zbool(E.b1(st, args[1]))
            al, odd = fconst(E, st, p, 'alpha'), fconst(E, st, p, 'odd')
            if odd != 0 or al is None:
                b, n = unknown_text(E, st)
            elif al == 0:
                b, n = Bytes(lambda k: z3.If(t, z3.IntVal(49), z3.IntVal(48))), Lin(None, 1)
            else:
                arr = z3.Const(E.sym('bool'), z3.ArraySort(I, I))
                tt, ff = b'true', b'false'
                for i in range(5):
                    st.assume(z3.Select(arr, i) == z3.If(t, z3.IntVal(tt[i] if i < 4 else 0), z3.IntVal(ff[i])))
                b, n = Bytes(lambda k: z3.Select(arr, Lin.of(k).z), arr, Lin(None, 0)), Lin.of(z3.If(t, z3.IntVal(4), z3.IntVal(5)))
            out_text(E, st, p, b, n)
            return p
        if k.startswith('operator<<(std::ostream& (*)(std::ostream&))'):
            f = args[1]
            nm = norm(demangle(f.name)) if isinstance(f, Fn) else ''
            if 'std::endl<' in nm:
                oappend(E, st, p, Bytes(lambda k: z3.IntVal(10)), 1)
                return p
            if 'std::flush<' in nm:
                return p
            if isinstance(f, Fn):
                return E.call(f.name, [p], st)
            return NotImplemented
        if k.startswith('operator<<(std::ios_base& (*)(std::ios_base&))'):
            f = args[1]
            nm = norm(demangle(f.name)) if isinstance(f, Fn) else '?'
            for q, key, val in (('std::dec(', 'base', 10), ('std::hex(', 'base', 16), ('std::boolalpha(', 'alpha', 1), ('std::noboolalpha(', 'alpha', 0)):
                if q in nm:
                    fset(st, p, key, val)
                    return p
            if any(q in nm for q in ('std::right(', 'std::noshowbase(', 'std::nouppercase(', 'std::noshowpos(', 'std::skipws(', 'std::noskipws(')):
                return p
            fset(st, p, 'odd', 1)
            return p
    return NotImplemented


def stringstream_handler(E, st, args, I_, dm):
    d = norm(dm)
    m = re.match(r'std::(?:__cxx11::)?basic_(o?)stringstream<char, .*?>::(.*)$', d)
    k = m.group(2) if m else ''
    if not m:
        return NotImplemented
    p = args[0]
    if re.match(r'basic_o?stringstream\(\)$', k) or (k.startswith('basic_ostringstream(std::_Ios_Openmode)')):
        E.bounds(st, p, 8, 'stream construction')
        open_stream(E, st, p, 'oss')
        return None
    if re.match(r'~basic_o?stringstream\(\)$', k):
        odata(E, st, p)
        st.g[okey(p)] = None
        return None
    if k == 'str() const':
        s_, me = args[0], args[1]
        D = odata(E, st, me)
        mk_string(E, st, s_, E.get_arr(st, D, BYTE), st.g[('n', D)])
        return None
    return NotImplemented


def to_string_handler(E, st, a, I_, dm):
    t = re.match(r'std::(?:__cxx11::)?to_string\((.*)\)$', norm(dm)).group(1)
    if t not in ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long'):
        return NotImplemented
    b, n = dec_bytes(E, st, (E.u if 'unsigned' in t else E.s)(st, a[1]).z)
    mk_string(E, st, a[0], copy_arr(E, st, b, n), n)
    return None


def is_ostream(name, dm):
    d = norm(dm)
    return d.startswith('std::ostream::') or bool(re.match(r'(std::ostream& )?std::(operator<<|__ostream_insert)', d))


def install(E):
    """register the trusted library contracts"""
    E.lib.append((lambda n, d: bool(re.match(r'std::(exception|logic_error|out_of_range|length_error|runtime_error)::~?(exception|logic_error|out_of_range|length_error|runtime_error)\(', norm(d))), lambda E_, st, a, I_, dm: None))
    E.lib.append((is_string_member, string_handler))
    E.lib.append((is_free_string_op, free_string_ops))
    E.lib.append((lambda n, d: 'stringstream<char' in d.split('(')[0], stringstream_handler))
    E.lib.append((is_ostream, ostream_handler))
    E.lib.append((lambda n, d: bool(re.match(r'std::(__cxx11::)?to_string\(', norm(d))), to_string_handler))
    E.lib.append((lambda n, d: n in CT, ctype))
    E.lib.append((lambda n, d: n == 'strlen', h_strlen))
    E.lib.append((lambda n, d: n in ('strdup', '__strdup'), h_strdup))
    E.lib.append((lambda n, d: n == 'strcmp', h_strcmp))
    E.lib.append((lambda n, d: n == 'memcmp' or n == 'bcmp', h_memcmp))
    E.lib.append((lambda n, d: re.match(r'(std|__gnu_cxx)::(__new_allocator|new_allocator|allocator)<[^()]*>::(~?)(__new_allocator|new_allocator|allocator)\(', d),
                  allocator_noop))
    E.hooks['post_havoc'] = post_havoc


def post_havoc(E, st, M):
    """class invariant of std::string after its content was forgotten"""
    ds = set()
    for loc in M:
        if loc[0] == 'g' and isinstance(loc[1], tuple) and loc[1][0] == 'n':
            ds.add(loc[1][1])
        if loc[0] == 'arr' and E.regions[loc[1]].kind == 'str':
            ds.add(loc[1])
    for D in ds:
        n = st.g[('n', D)]
        st.assume(n >= 0, n < MAXLEN)
        if E.regions[D].kind == 'str':
            st.assume(z3.Select(E.get_arr(st, D, BYTE), n) == 0)
