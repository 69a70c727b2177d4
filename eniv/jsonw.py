"""JSON argument lists and result lists as seen by an operation.

The argument array is real memory laid out as in the headers (so whatever
accessor the operation uses is executed in place); payload pointers are
abstract, and dereferencing the payload of an element obliges the element to
exist and to have the matching kind.  Values pushed to the result array go
through the contracts of Value's constructors (C05) and of Vector::emplace_back
/ push_back (C07)."""
import re, z3
from .vals import *
from .exec import *
from . import lib, build
from .build import norm
from .ir import Ty, PTR

_lay = {}


def probe(m, name):
    """offset of the member an accessor reads, or of the member whose address it returns"""
    E = Engine(m, 'layout')
    E.silent = 1
    st = State()
    r = E.new_region(st, 'object', 4096, None, 'obj', 'sym', False)
    outs = [x for x in E.run(name, [Ptr(r.rid, 0)], st) if x.kind == 'ret']
    v = outs[0].val
    if isinstance(v, Ptr) and v.base == r.rid:
        return v.off.c
    t = (v.off if isinstance(v, Ptr) else v.lin).z
    m_ = re.match(r'init!object!%d@(\d+)\.\d+$' % r.rid, str(t))
    if m_:
        return int(m_.group(1))
    raise build.BuildError('layout of ' + name)


def layout():
    if not _lay:
        m = build.compile_ir(build.VERIF + '/harness/h_layout.cpp')
        for n in list(m._glines):
            if n.startswith('k_'):
                _lay[n[2:]] = m.glob(n)[1].v if m.glob(n)[1].k == 'int' else 0
        for n in m.funcs:
            if n.startswith('p_'):
                _lay[n[2:]] = probe(m, n)
    return _lay


class Args:
    """an arbitrary json::Array of n values"""

    def __init__(self, E, st, name='args'):
        L = layout()
        self.E, self.L = E, L
        n = z3.Int('n_' + name)
        self.n = n
        st.assume(n >= 0, n < 2 ** 40)
        S = L['Value']
        self.elems = E.new_region(st, name + '_elements', Lin.of(n).scale(S), S, 'malloc', 'sym', False, ty='arr')
        self.elems.const = True
        self.arr = E.new_region(st, name, L['Array'], None, 'obj', 'sym', False)
        self.arr.const = True
        rs = st.mem[self.arr.rid]
        rs.cells[L['Vec_data']] = (8, Ptr(self.elems.rid, 0), PTR)
        rs.cells[L['Vec_size']] = (8, IV(64, n, 0, 2 ** 64 - 1), Ty('int', 64))
        cap = z3.Int('cap_' + name)
        st.assume(cap >= n, cap < 2 ** 40)
        rs.cells[L['Vec_cap']] = (8, IV(64, cap, 0, 2 ** 64 - 1), Ty('int', 64))
        rs.cells[L['Array_type']] = (4, IV(32, L['ARRAY']), Ty('int', 32))
        self.kty = (L['Value_type'], 4, 'i')
        self.kho = (L['Value_hold'], 8, 'p')
        self.T = E.init_arr(self.elems, self.kty)
        self.P = E.init_arr(self.elems, self.kho)
        self.strs = {}
        self.null_data = True
        E.hooks['str_raw'] = self.str_raw

    def kind(self, i):
        return z3.Select(self.T, i)

    def is_string(self, i):
        """the list has an element i and it is a string"""
        return z3.And(self.n > i, self.kind(i) == self.L['STRING'])

    def string(self, st, i):
        """bytes and length of string element i (i concrete)"""
        if i not in self.strs:
            E = self.E
            r = E.new_region(st, 'string_arg%d' % i, 32, None, 'new', 'sym', False)
            self.strs[i] = r.rid
            p = Ptr(r.rid, 0)
            a = z3.Array('arg%d' % i, I, I)
            n = z3.Int('len_arg%d' % i)
            self.facts = getattr(self, 'facts', {})
            self.facts[i] = (a, n, lib.new_data(E, st, a, n))
            E.regions[self.facts[i][2]].fresh = False
            E.regions[self.facts[i][2]].const = True
        a, n, D = self.facts[i]
        k = ('s', self.strs[i], 0)
        if k not in st.g:
            from .spec import byte_range
            st.mem.setdefault(self.strs[i], RS(True))
            st.mem.setdefault(D, RS(True, None, {lib.BYTE: a}))
            st.g[k] = D
            st.g[('n', D)] = n
            st.assume(n >= 0, n < 2 ** 40, z3.Select(a, n) == 0, byte_range(a, n))
        return a, n

    def str_raw(self, E, st, p):
        for k, (t, m) in p.off.d.items():
            if m == 1 and z3.is_select(t) and t.arg(0).eq(self.P) and len(p.off.d) == 1 and p.off.c == 0:
                idx = z3.simplify(t.arg(1))
                if not z3.is_int_value(idx):
                    raise Unsupported('string of an argument at a symbolic position')
                i = idx.as_long()
                E.oblige(st, z3.And(self.n > i, i >= 0), 'argument %d exists when its text is used' % i)
                E.oblige(st, self.kind(i) == self.L['STRING'], 'argument %d is a string when its text is used' % i)
                self.string(st, i)
                return ('s', self.strs[i], 0)
        E.oblige(st, False, 'string object through a null or unknown pointer')
        raise Unsupported('string at unknown address %s' % p.off.z)


class Ret:
    """the result array: values pushed so far as a ghost tuple"""

    def __init__(self, E, st, name='results'):
        self.E = E
        L = layout()
        self.arr = E.new_region(st, name, L['Array'], None, 'obj', 'sym', False)
        self.arr.const = True
        st.g[('ret', self.arr.rid)] = ()
        E.lib.insert(0, (lambda n, d: bool(re.match(r'(void )?eni::Vector<json::Value>::(emplace_back<.*>|push_back)\(', norm(d))), self.push))
        E.lib.insert(0, (lambda n, d: bool(re.match(r'json::Value::~?Value\(', norm(d))), self.value))

    def vkey(self, p):
        if not isinstance(p, Ptr) or p.base is None or not p.off.is_const():
            raise Unsupported('JSON value at unknown address')
        return ('val', p.base, p.off.c)

    def make(self, E, st, ps, args):
        if ps in ('std::string const&', 'std::string&', 'std::string&&', 'std::string'):
            return ('str', lib.sarr(E, st, args[0]), lib.slen(E, st, args[0]).z)
        if ps in ('char const*', 'char*', 'char const*&', 'char*&') or re.match(r'char (const )?\(&+\) ?\[\d+\]$', ps):
            p = args[0]
            if ps.endswith('*&'):
                p = E.load(st, p, PTR)
            n = lib.cstrlen(E, st, p)
            return ('str', lib.copy_arr(E, st, lib.bytes_at(E, st, p, n), n), n.z)
        if ps in ('json::Value const&', 'json::Value&', 'json::Value&&'):
            v = st.g.get(self.vkey(args[0]))
            if v is None:
                raise Unsupported('value of unknown content')
            return v
        if ps in ('bool', 'bool&', 'bool&&', 'bool const&', 'int', 'int&', 'int&&', 'int const&'):
            return ('other', ps)
        raise Unsupported('JSON value built from ' + ps)

    def push(self, E, st, args, I_, dm):
        d = norm(dm)
        ps = lib.split_args(d[d.rindex('(', 0, d.rindex(')')) + 1:-1] if not d.endswith(']&)') else d[d.index('>(') + 2:-1])
        if len(ps) != 1:
            raise Unsupported('emplace_back with %d arguments' % len(ps))
        E.oblige(st, isinstance(args[0], Ptr) and args[0].base == self.arr.rid, 'values are pushed to the result list')
        k = ('ret', self.arr.rid)
        st.g[k] = st.g[k] + (self.make(E, st, ps[0], args[1:]),)
        return None

    def value(self, E, st, args, I_, dm):
        d = norm(dm)
        if '~Value(' in d:
            st.g[self.vkey(args[0])] = None
            return None
        ps = lib.split_args(d[d.index('(') + 1:-1])
        E.bounds(st, args[0], layout()['Value'], 'value construction')
        st.g[self.vkey(args[0])] = ('undef',) if not ps else self.make(E, st, ps[0], args[1:])
        return None

    def values(self, st):
        return st.g[('ret', self.arr.rid)]


def base_contracts(E):
    """EniBase (C13): its constructor and destructor touch none of the operation's own members"""
    class Nop:
        def apply(self, E_, st, a):
            return None
    for n in ('eni::EniBase::EniBase(std::string const&)', 'eni::EniBase::~EniBase()'):
        E.contracts[n] = Nop()
    E.lib.insert(0, (lambda n, d: norm(d) in ('eni::EniBase::EniBase(std::string const&)', 'eni::EniBase::~EniBase()'), lambda E_, st, a, I_, dm: None))
