"""The multiprecision library's fixed-width integers as mathematical integers in
their range, each operation through a trusted contract."""
import re, z3
from .vals import *
from .exec import *
from . import lib
from .lib import Bytes, dec_bytes, mk_string
from .build import norm

NUM = re.compile(r'boost::multiprecision::number<boost::multiprecision::backends::cpp_int_backend<(\d+)ul, \1ul, \(boost::multiprecision::cpp_integer_type\)(\d), '
                 r'\(boost::multiprecision::cpp_int_check_type\)0, void>, \(boost::multiprecision::expression_template_option\)0>')
BACK = re.compile(r'boost::multiprecision::backends::cpp_int_backend<(\d+)ul, \1ul, \(boost::multiprecision::cpp_integer_type\)(\d), \(boost::multiprecision::cpp_int_check_type\)0, void>')
BASE = re.compile(r'boost::multiprecision::backends::cpp_int_base<(\d+)ul, \1ul, \(boost::multiprecision::cpp_integer_type\)(\d), .*?>::(.*)$')
INT = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
       'unsigned long long': (64, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True), 'unsigned short': (16, False)}
CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


def short(d):
    d = NUM.sub(lambda m: 'N%s%s' % (m[1], 'us'[int(m[2])]), norm(d))
    return BACK.sub(lambda m: 'B%s%s' % (m[1], 'us'[int(m[2])]), d).replace('boost::multiprecision::', '').replace(' >', '>')


def rng(bits, signed):
    """a signed number of this library has a magnitude of that many bits"""
    return (1 - 2 ** bits if signed else 0), 2 ** bits - 1


def key(p):
    if not isinstance(p, Ptr) or p.base is None or not p.off.is_const():
        raise Unsupported('number at an unknown address')
    return ('num', p.base, p.off.c)


class World:
    def __init__(self, E):
        self.E = E
        E.lib.insert(0, (lambda n, d: 'boost::' in d and not d.startswith('std::enable_if<!') and bool(NUM.search(norm(d)) or BASE.match(norm(d))), self.call))
        prev = E.hooks.get('copied_cells')

        def copied(E_, st, d, s, n):
            if prev:
                prev(E_, st, d, s, n)
            for (x, rid, o), v in [i for i in st.g.items() if i[0][0] == 'num' and len(i[0]) == 3]:
                if rid == s.base and s.off.c <= o < s.off.c + n:
                    st.g[('num', d.base, o - s.off.c + d.off.c)] = v
        E.hooks['copied_cells'] = copied

    def get(self, st, p):
        v = st.g.get(key(p))
        if v is None:
            self.E.oblige(st, False, 'a number is used after its construction')
            raise Unsupported('no number at %r' % (p,))
        return v

    def put(self, st, p, v, bits, signed):
        """the value wraps around (unsigned) or keeps its magnitude's low bits (signed)"""
        lo, hi = rng(bits, signed)
        if not self.E.P.valid_quick(st, z3.And(v >= lo, v <= hi)):
            v = v % 2 ** bits if not signed else z3.If(v < 0, -((-v) % 2 ** bits), v % 2 ** bits)
        self.E.bounds(st, p, max(8, bits // 8 + 8 * (bits > 128)), 'number')
        st.g[key(p)] = z3.simplify(v)

    def text(self, st, v):
        b, n = dec_bytes(self.E, st, v)
        k = z3.Int('k!neg')
        st.assume(z3.Implies(v == 0, z3.And(n.z == 1, b.at(Lin(None, 0)) == 48)))
        m = z3.simplify(-v)
        la, ln = lib.DECARR(m), lib.DECLEN(m)
        st.assume(z3.Implies(v < 0, z3.And(n.z == ln + 1, b.at(Lin(None, 0)) == 45)))
        st.assume(FA(k, z3.Implies(z3.And(v < 0, 0 <= k, k < ln), z3.Select(b.arr, k + 1) == z3.Select(la, k)), z3.Select(la, k)))
        return b, n

    def operand(self, st, t, v):
        """(value, bits, signed) of a parameter of type t"""
        t = t.strip()
        m = re.match(r'N(\d+)([us])( const)?(&&?)?$', t)
        if m:
            return self.get(st, v)
        m = re.match(r'([a-z ]+?)( const&)?$', t)
        if m and m.group(1) in INT:
            w, s = INT[m.group(1)]
            if m.group(2):
                v = self.E.load(st, v, Ty('int', w))
            return (self.E.s if s else self.E.u)(st, v).z
        raise Unsupported('number operand ' + t)

    def call(self, E, st, a, I_, dm):
        d = short(dm)
        m = re.match(r'std::string boost::lexical_cast<std::string, N(\d+)([us])>\(N\1[us] const&\)$', d)
        if m:
            b, n = self.text(st, self.get(st, a[1]))
            mk_string(E, st, a[0], lib.copy_arr(E, st, b, n), n)
            return None
        m = re.match(r'(?:.* )?N(\d+)([us])::(.*)$', d)
        if m and not re.search(r'operator[<>=!+*/%-]+ ?<', d):
            bits, sg, k = int(m[1]), m[2] == 's', m[3]
            if k in ('str(long, std::_Ios_Fmtflags) const', 'convert_to<std::string >() const', 'convert_to<std::string>() const'):
                v = self.get(st, a[1])
                if k.startswith('str('):
                    f, dg = E.u(st, a[3]), E.u(st, a[2])
                    if not f.is_const() or f.c & (8 | 64 | 2048 | 512 | 16384 | 256):
                        b, n = lib.unknown_text(E, st)
                        mk_string(E, st, a[0], lib.copy_arr(E, st, b, n), n)
                        return None
                b, n = self.text(st, v)
                mk_string(E, st, a[0], lib.copy_arr(E, st, b, n), n)
                return None
            if k == 'is_zero() const':
                return B1(self.get(st, a[0]) == 0)
            if k == 'sign() const':
                v = self.get(st, a[0])
                return IV(32, z3.If(v < 0, z3.IntVal(-1), z3.If(v == 0, z3.IntVal(0), z3.IntVal(1))), -1, 1)
            if re.match(r'backend\(\)( const)?( ?&)?$', k):
                return a[0]
            if k == '~number()':
                return None
            if k == 'number()':
                self.put(st, a[0], z3.IntVal(0), bits, sg)
                return None
            q = re.match(r'number(?:<.*?>)?\((N\d+[us](?: const)?&&?|[a-z ]+(?: const&)?)(?:, .*)?\)$', k)
            if q:
                self.put(st, a[0], self.operand(st, q[1], a[1]), bits, sg)
                return None
            q = re.match(r'operator([-+*/%]?)=(?:<.*?>)?\((N\d+[us](?: const)?&&?|[a-z ]+(?: const&)?)\)$', k)
            if q:
                y = self.operand(st, q[2], a[1])
                self.put(st, a[0], self.arith(st, q[1], self.get(st, a[0]), y) if q[1] else y, bits, sg)
                return a[0]
            q = re.match(r'(?:operator |convert_to<)([a-z ]+?)(?:<.*>|>)\(\) const$', k)
            if q and q[1] == 'bool':
                return B1(self.get(st, a[0]) != 0)
            if q and q[1] in INT:
                w, s = INT[q[1]]
                v = self.get(st, a[0])
                lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if s else (0, 2 ** w - 1)
                if E.P.valid_quick(st, z3.And(v >= lo, v <= hi)):
                    return IV(w, v, lo, hi)
                if not s and not sg:
                    return IV(w, v % 2 ** w, 0, 2 ** w - 1)
                return E.fresh_iv(st, w)
            return NotImplemented
        m = BASE.match(norm(dm))
        if m and m[3] == 'sign() const':
            return B1(self.get(st, a[0]) < 0)
        m = re.match(r'.*?\boperator(==|!=|<=|>=|<|>) ?<.*>\(([^()]*)\)$', d)
        if m and not m[2].startswith('std::ostream&'):
            t = lib.split_args(m[2])
            return B1(CMP[m[1]](self.operand(st, t[0], a[0]), self.operand(st, t[1], a[1])))
        if m or re.match(r'.*operator<< ?<.*>\(std::ostream&, N\d+[us] const&\)$', d):
            v = self.get(st, a[1])
            if lib.fconst(E, st, a[0], 'base') == 10 and lib.fconst(E, st, a[0], 'odd') == 0:
                b, n = self.text(st, v)
            else:
                b, n = lib.unknown_text(E, st)
            lib.out_text(E, st, a[0], b, n)
            return a[0]
        m = re.match(r'.*\boperator([-+*/%]) ?<.*>\(([^()]*)\)$', d)
        if m:
            t = lib.split_args(m[2])
            q = re.search(r'N(\d+)([us])', m[2])
            x = self.operand(st, t[0], a[1])
            r = -x if len(t) == 1 else self.arith(st, m[1], x, self.operand(st, t[1], a[2]))
            self.put(st, a[0], r, int(q[1]), q[2] == 's')
            return None
        return NotImplemented

    def arith(self, st, op, x, y):
        if op in '/%':
            self.E.oblige(st, y != 0, 'division by a number other than zero')
            ay = z3.If(y < 0, -y, y)
            ax = z3.If(x < 0, -x, x)
            q = ax / ay
            q = z3.If((x < 0) != (y < 0), -q, q)
            return q if op == '/' else x - q * y
        return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y}[op]()
