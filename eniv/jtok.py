"""What a JSON text denotes, as terms, and the parser building it.

Texts (strings, buffers) and values are terms over uninterpreted constructors;
the grammar's meaning functions are defined by recursion on positions and
instantiated where the code is:
  DEN(i)     value that starts at i           ELD(i,t)  array t completed from its next element at i
  MBD(i,t)   object t completed from its next member at i
  DECL(i,t)  text t followed by the decoded rest of the literal at i
  DG(i,t)    text t followed by the digits at i
"""
import re, z3
from .vals import *
from .exec import *
from . import build, lib, jsonw, jparse
from .jparse import ws, dg, sl, val, hexa, digit, ESC, is_in, If, And, Or, Not
from .build import norm
from .ir import Ty, PTR, demangle

Fn_ = lambda n, k: z3.Function(n, *([I] * (k + 1)))
DEN, ELD, MBD, DECL, DG = Fn_('denotes', 1), Fn_('array_from', 2), Fn_('object_from', 2), Fn_('literal_from', 2), Fn_('digits_from', 2)
KIND, BOOLV, INTV, STRV = Fn_('kind_of', 1), Fn_('boolean_value', 1), Fn_('integer_value', 1), Fn_('string_value', 1)
SNOC, UPD, TOUCH, AT = Fn_('array_then', 2), Fn_('object_with', 3), Fn_('object_touched', 2), Fn_('member_of', 2)
CSNOC, LEN, BEG, PART = Fn_('text_then', 2), Fn_('text_length', 1), Fn_('text_begin', 1), Fn_('text_part', 3)
UNDEFV, ARRNIL, OBJNIL, CNIL = z3.Ints('undefined_value empty_array empty_object empty_text')
I8, I32 = Ty('int', 8), Ty('int', 32)


def hexv(c):
    return If(digit(c), c - 48, If(c >= 97, c - 87, c - 55))


class Meaning(jparse.Grammar):
    def num_text(self, j):
        at = self.at
        t = If(at(j) == 45, CSNOC(CNIL, z3.IntVal(45)), CNIL)
        k = If(at(j) == 45, j + 1, j)
        return If(at(k) == 48, CSNOC(t, z3.IntVal(48)), DG(k + 1, CSNOC(t, at(k))))

    def den(self, i):
        at = self.at
        j = ws(i)
        c = at(j)
        k = ws(j + 1)
        return DEN(i) == If(c == 123, If(at(k) == 125, OBJNIL, MBD(k, OBJNIL)), If(c == 91, If(at(k) == 93, ARRNIL, ELD(k, ARRNIL)), If(
            c == 34, STRV(DECL(j + 1, CNIL)), If(c == 116, BOOLV(1), If(c == 102, BOOLV(0), INTV(self.num_text(j)))))))

    def two(self, nm, i, t):
        at = self.at
        if nm == 'ELD':
            k = ws(val(i))
            t2 = SNOC(t, DEN(i))
            return ELD(i, t) == If(at(k) == 44, ELD(k + 1, t2), t2)
        if nm == 'MBD':
            j = ws(i)
            v = ws(sl(j + 1)) + 1
            k = ws(val(v))
            t2 = UPD(t, DECL(j + 1, CNIL), DEN(v))
            return MBD(i, t) == If(at(k) == 44, MBD(k + 1, t2), t2)
        if nm == 'DG':
            return DG(i, t) == If(digit(at(i)), DG(i + 1, CSNOC(t, at(i))), t)
        c, e = at(i), at(i + 1)
        esc = DECL(i + 6, CSNOC(t, 16 * hexv(at(i + 4)) + hexv(at(i + 5))))
        for x in sorted(ESC):
            esc = If(e == x, DECL(i + 2, CSNOC(t, z3.IntVal(ESC[x]))), esc)
        return DECL(i, t) == If(c == 34, t, If(c == 92, esc, DECL(i + 1, CSNOC(t, c))))


TWO = {'ELD': ELD, 'MBD': MBD, 'DG': DG, 'DECL': DECL}
FOR = {'tok': ('DECL', 'DG'), 'val': ('ELD', 'MBD')}


class World(jparse.World):
    def __init__(self, ctx, tag='C02'):
        jparse.World.__init__(self, ctx, tag)
        self.G = Meaning(self.T, self.L)
        self.K = jsonw.layout()
        self.VS = self.m.glob('k_Value')[1].v
        self.SO = (self.VS + 7) // 8 * 8
        self.views, self.entries = {}, {}
        K = self.K
        for t, k in ((UNDEFV, 'UNDEF'), (ARRNIL, 'ARRAY'), (OBJNIL, 'OBJECT')):
            self.st.assume(KIND(t) == K[k])
        E = self.E
        on = lambda pat, f: E.lib.insert(0, (lambda n, d, r=re.compile(pat): r.match(norm(d)) is not None, f))
        on(r'json::(Value|Notation|Array|Object|Container)::', self.json)
        on(r'eni::(Vector|StringMap|HashTable)<json::Value.*>::', self.container)
        on(r'std::vector<char, std::allocator<char> ?>::', self.chars)
        on(r'std::vector<std::pair<json::Value, std::string ?>, std::allocator<.*> ?>::', self.stack)
        on(r'std::string::', self.string)
        on(r'boost::multiprecision::number<.*>::number<?', self.number)
        on(r'std::pair<.*>::~pair\(\)', self.pair_dtor)
        E.lib.insert(0, (lambda n, d: n in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf'), self.scanf))
        E.lib.insert(0, (lambda n, d: n in ('strtol', 'strtoul', '__isoc23_strtol', '__isoc23_strtoul'), self.strtol))

    # -- positions and tokens
    F1 = ('ws', 'dg', 'sl')

    def know2(self, st, nm, i, t):
        i, t = z3.simplify(i), z3.simplify(t)
        k = (nm, i.get_id(), t.get_id())
        if k not in self.seen:
            f = self.G.den(i) if nm == 'DEN' else self.G.two(nm, i, t)
            self.seen[k] = (i, t, z3.Implies(And(0 <= i, i <= self.L), f))
        f = self.seen[k][2]
        if not any(f is x for x in st.pc):
            st.pc.append(f)

    def know_den(self, st, i):
        self.know2(st, 'DEN', i, z3.IntVal(0))

    def cands(self, E, L):
        out = []
        vs = []
        for v in self.vars_in_text(L):
            try:
                s0 = v.get(E, L.st0, L.env0)
            except Exception:
                continue
            if s0 is not None:
                vs.append((v, s0))
        for v, s0 in vs:
            self.know(L.st0, s0.z, self.F1)
            out.append(('a digit at %s' % v.name, lambda E_, s, e, v=v: digit(self.G.at(v.get(E_, s, e).z))))
            out.append(('%s before the end' % v.name, lambda E_, s, e, v=v: v.get(E_, s, e).z < self.L))
            for nm in self.F1:
                def c(E_, s, e, v=v, f=jparse.F1[nm], s0=s0):
                    x = v.get(E_, s, e).z
                    self.know(s, x, self.F1)
                    return f(x) == f(s0.z)
                out.append(('%s(%s) as at the start' % (nm, v.name), c))
        for loc in sorted(L.M, key=repr):
            if loc[0] != 'g' or loc[1][0] not in FOR:
                continue
            key = loc[1]
            t0 = L.st0.g[key]
            if t0 is None:
                continue
            nm_ = '%s+%d' % (E.regions[key[1]].name, key[2])
            if key[0] == 'val':
                out.append(('kind of %s' % nm_, lambda E_, s, e, key=key, t0=t0: KIND(s.g[key]) == KIND(t0)))
            for v, s0 in vs:
                for nm in FOR[key[0]]:
                    def c(E_, s, e, key=key, v=v, s0=s0, t0=t0, nm=nm):
                        x = v.get(E_, s, e).z
                        self.know2(s, nm, x, s.g[key])
                        return TWO[nm](x, s.g[key]) == TWO[nm](s0.z, t0)
                    out.append(('%s(%s, %s) as at the start' % (nm, v.name, nm_), c))
        return out

    def kinded(self, st, t, k):
        st.assume(KIND(t) == self.K[k])
        return t

    # -- objects
    def lookup(self, st, name, p, size):
        """key of the object of that sort at or around p"""
        if not isinstance(p, Ptr) or p.base is None or not p.off.is_const():
            raise Unsupported('object at an unknown address')
        for o in range(p.off.c, max(p.off.c - size, -1), -1):
            if st.g.get((name, p.base, o)) is not None:
                return (name, p.base, o)
        self.E.oblige(st, False, 'an existing object is used', self.tag)
        raise Unsupported('no object at %r' % (p,))

    def view(self, st, p):
        """the key of the container behind a reference"""
        if p.base in self.views:
            k = self.views[p.base]
            if st.g.get(k) is None:
                self.E.oblige(st, False, 'an existing container is used', self.tag)
                raise Unsupported('container gone')
            return k
        return self.lookup(st, 'val', p, 64)

    def put(self, st, name, p, t):
        if not isinstance(p, Ptr) or p.base is None or not p.off.is_const():
            raise Unsupported('object at an unknown address')
        st.g[(name, p.base, p.off.c)] = t

    def value(self, st, p):
        return st.g[self.lookup(st, 'val', p, self.VS)]

    def assign(self, st, p, t):
        k = self.lookup(st, 'val', p, self.VS)
        st.g[k] = t
        if k[1] in self.entries:
            owner, base, key = self.entries[k[1]]
            if st.g.get(owner) is None or not st.g[owner].eq(TOUCH(base, key)) and not (st.g[owner].decl().eq(UPD) and st.g[owner].arg(0).eq(base) and st.g[owner].arg(1).eq(key)):
                raise Unsupported('an element is assigned after its object changed')
            st.g[owner] = self.kinded(st, UPD(base, key, t), 'OBJECT')

    # -- texts
    def text_of(self, st, p):
        return st.g[self.lookup(st, 'tok', p, 1)]

    def is_text(self, p):
        return isinstance(p, Ptr) and p.base == self.text.base

    def literal(self, st, p, n=None):
        t, k = CNIL, 0
        while n is None or k < n:
            v = self.E.u(st, self.E.load(st, p + k, I8))
            if n is None:
                if not v.is_const():
                    return self.E.fresh_int('unknown_text')
                if v.c == 0:
                    break
            t = CSNOC(t, v.z)
            k += 1
            if k > 64:
                raise Unsupported('long text')
        return t

    def span(self, st, a, b):
        """the text between two iterators"""
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
            if a.base is None:
                o = self.origin(a)
                if o is not None and self.origin(b) is not None and self.origin(b).eq(o):
                    x, y = a.off - Lin.of(BEG(o)), b.off - Lin.of(BEG(o))
                    if x.is_const() and x.c == 0 and z3.simplify(y.z == LEN(o)).eq(z3.BoolVal(True)):
                        return o
                    return PART(o, x.z, y.z)
            else:
                d = b.off - a.off
                if d.is_const() and 0 <= d.c <= 8:
                    return self.literal(st, a, d.c)
        return self.E.fresh_int('unknown_text')

    def origin(self, p):
        """the text a character pointer points into"""
        if isinstance(p, Ptr) and p.base is None:
            for k, (t, n) in p.off.d.items():
                if n == 1 and z3.is_app(t) and t.decl().eq(BEG):
                    return t.arg(0)
        return None

    def begin(self, t):
        return Ptr(None, Lin.of(BEG(t)))

    def end(self, t):
        return Ptr(None, Lin.of(BEG(t)) + Lin.of(LEN(t)))

    def char(self, st, x):
        v = self.E.load(st, x, I8) if isinstance(x, Ptr) else x
        if isinstance(v, Undef):
            self.E.oblige(st, False, 'a determined character is stored', self.tag)
            return self.E.fresh_int('undetermined')
        return self.E.u(st, v).z

    def size(self, st, t):
        st.assume(LEN(t) >= 0, LEN(t) < 2 ** 62)
        return IV(64, LEN(t), 0, 2 ** 64 - 1)

    def sequence(self, st, a, f, I_):
        """operations common to strings and character vectors; None when it is not one"""
        E = self.E
        n = re.match(r'([A-Za-z_=+~\[\]]+|operator\[\])(<.*?>)?\(', f)
        n = n.group(1) if n else f
        if n in ('push_back', 'emplace_back', 'operator+=') and len(a) == 2:
            c = a[1]
            if isinstance(c, Ptr) and 'char const*' in f:
                return NotImplemented
            if isinstance(c, Ptr) and 'string' in f:
                return NotImplemented
            k = self.lookup(st, 'tok', a[0], 1)
            st.g[k] = CSNOC(st.g[k], self.char(st, c))
            return a[0]
        if n in ('begin', 'cbegin', 'c_str', 'data'):
            return self.begin(self.text_of(st, a[0]))
        if n in ('end', 'cend'):
            return self.end(self.text_of(st, a[0]))
        if n in ('size', 'length'):
            return self.size(st, self.text_of(st, a[0]))
        if n == 'empty':
            return B1(self.text_of(st, a[0]) == CNIL)
        if n == 'clear':
            st.g[self.lookup(st, 'tok', a[0], 1)] = CNIL
            return None
        if n in ('reserve', 'shrink_to_fit'):
            return None
        return NotImplemented

    def chars(self, E, st, a, I_, dm):
        f = re.match(r'std::vector<char, std::allocator<char> ?>::(.*)$', norm(dm)).group(1)
        if f.startswith('vector('):
            if f == 'vector()':
                t = CNIL
            elif f in ('vector(std::vector<char, std::allocator<char> > const&)', 'vector(std::vector<char, std::allocator<char> >&&)'):
                t = self.text_of(st, a[1])
            else:
                return NotImplemented
            self.put(st, 'tok', a[0], t)
            return None
        if f == '~vector()':
            st.g[self.lookup(st, 'tok', a[0], 1)] = None
            return None
        return self.sequence(st, a, f, I_)

    def string(self, E, st, a, I_, dm):
        if not a or self.is_text(a[0]):
            return NotImplemented
        d = norm(dm)
        f = d[len('std::string::'):]
        if f.startswith('basic_string'):
            ps = re.sub(r'^basic_string(<.*>)?\((?=[^()]*\)$)', '', f)[:-1]
            if ps == '' or len(a) == 1:
                t = CNIL
            elif ps.startswith('std::string const&') or ps.startswith('std::string&&'):
                if self.is_text(a[1]):
                    raise Unsupported('copy of the text')
                t = self.text_of(st, a[1])
                if '&&' in ps:
                    st.g[self.lookup(st, 'tok', a[1], 1)] = E.fresh_int('moved_from')
            elif ps.startswith('char const*, std::allocator') or ps == 'char const*':
                t = self.origin(a[1])
                if t is None or not self.begin(t).off.key() == a[1].off.key():
                    t = self.literal(st, a[1])
            elif isinstance(a[1], Ptr) and len(a) > 2 and isinstance(a[2], Ptr):
                t = self.span(st, a[1], a[2])
            elif isinstance(a[1], Ptr) and len(a) > 2 and isinstance(a[2], IV):
                t = self.span(st, a[1], Ptr(a[1].base, a[1].off + E.u(st, a[2])))
            else:
                return NotImplemented
            self.put(st, 'tok', a[0], t)
            return None
        if f.startswith('~'):
            st.g[self.lookup(st, 'tok', a[0], 1)] = None
            return None
        if f.startswith('operator=('):
            if f.startswith('operator=(char const*'):
                t = self.literal(st, a[1])
            else:
                t = self.text_of(st, a[1])
                if '&&' in f:
                    st.g[self.lookup(st, 'tok', a[1], 1)] = E.fresh_int('moved_from')
            st.g[self.lookup(st, 'tok', a[0], 1)] = t
            return a[0]
        if f.startswith(('assign<', 'assign(')) and len(a) == 3 and isinstance(a[2], Ptr):
            st.g[self.lookup(st, 'tok', a[0], 1)] = self.span(st, a[1], a[2])
            return a[0]
        if f.startswith('swap('):
            k1, k2 = self.lookup(st, 'tok', a[0], 1), self.lookup(st, 'tok', a[1], 1)
            st.g[k1], st.g[k2] = st.g[k2], st.g[k1]
            return None
        return self.sequence(st, a, f, I_)

    def hex_text(self, st, t):
        """the number a text of at most eight hexadecimal digits spells"""
        cs = []
        while z3.is_app(t) and t.decl().eq(CSNOC):
            cs.append(t.arg(1))
            t = t.arg(0)
        if not t.eq(CNIL) or not 1 <= len(cs) <= 7:
            return None
        if not all(self.E.P.prove(st, hexa(c), 3000, True)[0] == 'proved' for c in cs):
            return None
        return sum((hexv(c) * 16 ** k for k, c in enumerate(cs)), z3.IntVal(0))

    def scanf(self, E, st, a, I_, dm):
        fmt = lib.cstr_const(E, st, a[1]) if hasattr(lib, 'cstr_const') else self.const_text(st, a[1])
        t = self.origin(a[0])
        v = None
        if t is not None and fmt in ('%X', '%x', '%4X', '%4x'):
            v = self.hex_text(st, t)
        if v is None:
            x = E.fresh_iv(st, 32, 'code')
        else:
            x = IV(32, v, 0, 2 ** 28 - 1)
        E.store(st, a[2], x, I32)
        return IV(32, 1)

    def strtol(self, E, st, a, I_, dm):
        t = self.origin(a[0])
        b = E.u(st, a[2])
        v = self.hex_text(st, t) if t is not None and b.is_const() and b.c == 16 else None
        return E.fresh_iv(st, 64, 'code') if v is None else IV(64, v, 0, 2 ** 28 - 1)

    def const_text(self, st, p):
        s, k = '', 0
        while True:
            v = self.E.u(st, self.E.load(st, p + k, I8))
            if not v.is_const():
                return None
            if v.c == 0:
                return s
            s += chr(v.c)
            k += 1

    def number(self, E, st, a, I_, dm):
        d = norm(dm)
        if not re.search(r'\((std::string|char const\*)', d) and 'basic_string' not in d and 'std::string' not in d:
            if re.search(r'::number\(boost::multiprecision::number<[^()]*> (const&|&&)\)$', d) and isinstance(a[1], Ptr):
                st.g[('num', a[0].base, a[0].off.c)] = st.g.get(('num', a[1].base, a[1].off.c), E.fresh_int('unknown_number'))
                return None
            return NotImplemented
        if isinstance(a[1], Ptr) and a[1].base is None and self.origin(a[1]) is not None:
            t = self.origin(a[1])
        else:
            t = self.text_of(st, a[1])
        st.g[('num', a[0].base, a[0].off.c)] = INTV(t)
        return None

    # -- values
    def json(self, E, st, a, I_, dm):
        m = re.match(r'json::(\w+)::(.*)$', norm(dm))
        c, f = m.groups()
        K = self.K
        if c in ('Array', 'Object'):
            nil, k = (ARRNIL, 'ARRAY') if c == 'Array' else (OBJNIL, 'OBJECT')
            if f == c + '()':
                self.put(st, 'val', a[0], nil)
                return None
            if f in ('%s(json::%s const&)' % (c, c), '%s(json::%s&&)' % (c, c)):
                self.put(st, 'val', a[0], st.g[self.view(st, a[1])])
                return None
            if f.startswith('~'):
                st.g[self.lookup(st, 'val', a[0], 1)] = None
                return None
        if c == 'Value':
            m = re.match(r'Value\((.*)\)$', f)
            if m:
                ps = m.group(1)
                if ps == '':
                    t = UNDEFV
                elif ps in ('json::Value const&', 'json::Value&&'):
                    t = self.value(st, a[1])
                    if '&&' in ps:
                        st.g[self.lookup(st, 'val', a[1], self.VS)] = UNDEFV
                elif ps in ('json::Array const&', 'json::Object const&', 'json::Array&', 'json::Object&'):
                    t = st.g[self.view(st, a[1])]
                elif ps == 'bool':
                    b = E.b1(st, a[1]) if hasattr(E, 'b1') else a[1]
                    t = self.kinded(st, BOOLV(If(zbool(b), z3.IntVal(1), z3.IntVal(0)) if not isinstance(b, bool) else z3.IntVal(int(b))), 'BOOL')
                elif ps == 'std::string const&':
                    t = self.kinded(st, STRV(self.text_of(st, a[1])), 'STRING')
                elif ps == 'char const*':
                    o = self.origin(a[1])
                    # a C string ends at the first NUL: not the text itself
                    t = self.kinded(st, STRV(E.fresh_int('c_text') if o is not None else self.literal(st, a[1])), 'STRING')
                else:
                    t = E.fresh_int('unknown_value')
                self.put(st, 'val', a[0], t)
                return None
            if f.startswith('~'):
                k = self.lookup(st, 'val', a[0], 1)
                st.g[k] = None
                return None
            if f.startswith('operator=('):
                t = self.value(st, a[1])
                self.assign(st, a[0], t)
                if '&&' in f and a[0].base != a[1].base:
                    st.g[self.lookup(st, 'val', a[1], self.VS)] = UNDEFV
                return a[0]
            if f.startswith('delegate('):
                t = self.value(st, a[0])
                if not t.eq(UNDEFV):
                    E.oblige(st, t == UNDEFV, 'only an undefined value takes over an object', self.tag)
                if 'json::' in f:
                    x = st.g[self.view(st, a[1])]
                elif 'multiprecision' in f:
                    x = st.g.get(('num', a[1].base, a[1].off.c))
                    if x is None:
                        E.oblige(st, False, 'an existing integer is taken over', self.tag)
                        raise Unsupported('integer')
                    self.kinded(st, x, 'INT')
                else:
                    x = self.kinded(st, STRV(self.text_of(st, a[1])), 'STRING')
                self.assign(st, a[0], x)
                return a[0]
        m = re.match(r'as(Array|Object)\(\)( const)?$', f)
        if m and c in ('Value', 'Notation'):
            k = self.lookup(st, 'val', a[0], self.VS)
            E.oblige(st, KIND(st.g[k]) == K[m.group(1).upper()], 'a value is used as what it is', self.tag)
            r = E.new_region(st, 'view', 256, None, 'view', 'sym', False)
            self.views[r.rid] = k
            return Ptr(r.rid, 0)
        m = re.match(r'is(Array|Object|Int|Bool|String|Undef\w*)\(\) const$', f)
        if m:
            k = {'INT': 'INT', 'BOOL': 'BOOL', 'STRING': 'STRING', 'ARRAY': 'ARRAY', 'OBJECT': 'OBJECT'}.get(m.group(1).upper(), 'UNDEF')
            return B1(KIND(st.g[self.view(st, a[0])]) == K[k])
        if f == 'type() const':
            t = KIND(st.g[self.view(st, a[0])])
            st.assume(t >= 0, t < 64)
            return IV(32, t, 0, 63)
        raise Unsupported('json::%s::%s' % (c, f))

    def container(self, E, st, a, I_, dm):
        f = norm(dm)
        f = f[f.rindex('>::') + 3:] if '>::' in f else f
        k = self.view(st, a[0])
        t = st.g[k]
        if re.match(r'(push_back|emplace_back(<.*>)?)\(', f) and len(a) == 2:
            E.oblige(st, KIND(t) == self.K['ARRAY'], 'elements are added to arrays', self.tag)
            st.g[k] = self.kinded(st, SNOC(t, self.value(st, a[1])), 'ARRAY')
            return None
        if re.match(r'operator\[\]\(std::string const&\)$', f):
            key = self.text_of(st, a[1])
            E.oblige(st, KIND(t) == self.K['OBJECT'], 'members are added to objects', self.tag)
            st.g[k] = self.kinded(st, TOUCH(t, key), 'OBJECT')
            r = E.new_region(st, 'member', self.VS, None, 'entry', 'sym', False)
            st.g[('val', r.rid, 0)] = AT(t, key)
            self.entries[r.rid] = (k, t, key)
            return Ptr(r.rid, 0)
        raise Unsupported('container operation %s' % f)

    # -- the builder's stack
    def stack_key(self, st, p):
        k = ('stk', p.base, p.off.c if p.off.is_const() else None)
        if st.g.get(k) is None:
            self.E.oblige(st, False, 'an existing stack is used', self.tag)
            raise Unsupported('no stack')
        if st.g[k][0] == 'lost':
            raise Unsupported('stack after an error')
        return k

    def frame_(self, st, t, key):
        r = self.E.new_region(st, 'open container', self.SO + 32, None, 'frame', 'sym', False)
        st.g[('val', r.rid, 0)] = t
        st.g[('tok', r.rid, self.SO)] = key
        return r.rid

    def drop(self, st, rid):
        st.g[('val', rid, 0)] = None
        st.g[('tok', rid, self.SO)] = None
        self.E.rs_w(st, rid).alive = False

    def stack(self, E, st, a, I_, dm):
        d = norm(dm)
        f = d[d.index('>::', d.index('std::allocator<')) + 3:]
        if f == 'vector()':
            st.g[('stk', a[0].base, a[0].off.c)] = ('empty', ())
            return None
        if f == '~vector()':
            st.g[('stk', a[0].base, a[0].off.c)] = None
            return None
        k = self.stack_key(st, a[0])
        base, fr = st.g[k]
        if f.startswith(('push_back', 'emplace_back')):
            if f.startswith('push_back') or len(a) == 2:
                v, s = a[1], a[1] + self.SO
                t, key = self.value(st, v), self.text_of(st, s)
                if '&&' in f:
                    st.g[self.lookup(st, 'val', v, self.VS)] = UNDEFV
                    st.g[self.lookup(st, 'tok', s, 1)] = E.fresh_int('moved_from')
            elif len(a) == 3:
                t = self.value(st, a[1])
                key = self.text_of(st, a[2]) if 'std::string' in f.split('(')[0] else self.literal(st, a[2])
            else:
                raise Unsupported(f)
            new = []
            for x in fr:        # growing may move the elements
                new.append(self.frame_(st, st.g[('val', x, 0)], st.g[('tok', x, self.SO)]))
                self.drop(st, x)
            new.append(self.frame_(st, t, key))
            st.g[k] = (base, tuple(new))
            return Ptr(new[-1], 0)
        if re.match(r'(empty|size)\(\) const', f):
            if base == 'any':
                n = E.fresh_int('below')
                st.assume(n >= 0, n < 2 ** 40)
            else:
                n = z3.IntVal(0)
            n = Lin.of(n) + len(fr)
            return B1(n.z == 0) if f.startswith('empty') else IV(64, n, 0, 2 ** 64 - 1)
        if not fr:
            E.oblige(st, base != 'empty', 'the stack has a top', self.tag)
            raise Unsupported('below the known part of the stack')
        if re.match(r'back\(\)', f):
            return Ptr(fr[-1], 0)
        if f == 'pop_back()':
            self.drop(st, fr[-1])
            st.g[k] = (base, fr[:-1])
            return None
        raise Unsupported('stack operation %s' % f)

    def pair_dtor(self, E, st, a, I_, dm):
        for k in [k for k in st.g if k[0] in ('val', 'tok') and k[1] == a[0].base and st.g[k] is not None]:
            if a[0].off.c <= k[2] <= a[0].off.c + self.SO:
                st.g[k] = None
        return None

    # -- the recursion contract
    def places(self, st, this):
        ks = [k for k in st.g if k[0] == 'stk' and k[1] == this.base and st.g[k] is not None]
        rs = [k for k in st.g if k[0] == 'val' and k[1] == this.base and st.g[k] is not None]
        if len(ks) != 1 or len(rs) != 1:
            raise Unsupported('the builder has %d stacks and %d roots' % (len(ks), len(rs)))
        return ks[0], rs[0]

    def outcomes(self, E, st, this, i, args):
        ks, kr = self.places(st, this)
        base, fr = st.g[ks]
        if base == 'lost':
            E.oblige(st, False, 'nothing is parsed after an error', self.tag)
            return []
        self.know_den(st, i)
        outs = []
        for x in self.excs:
            s2 = st.clone()
            s2.assume(val(i) == -1)
            self.set_cursor(s2, this, E.fresh_int('stop'))
            for f in fr:
                self.drop(s2, f)
            s2.g[ks] = ('lost', ())
            s2.g[kr] = E.fresh_int('root')
            outs.append(Outcome('throw', s2, x))
        e = E.fresh_int('after')
        st.assume(e == val(i), i < e, e <= self.L)
        self.set_cursor(st, this, e)
        K = self.K
        if not fr:
            if base != 'empty':
                raise Unsupported('recursion below the known part of the stack')
            st.g[kr] = DEN(i)
        else:
            kv, kt = ('val', fr[-1], 0), ('tok', fr[-1], self.SO)
            t = st.g[kv]
            if E.P.prove(st, KIND(t) == K['ARRAY'], 3000, True)[0] == 'proved':
                st.g[kv] = self.kinded(st, SNOC(t, DEN(i)), 'ARRAY')
            elif E.P.prove(st, KIND(t) == K['OBJECT'], 3000, True)[0] == 'proved':
                st.g[kv] = self.kinded(st, UPD(t, st.g[kt], DEN(i)), 'OBJECT')
            else:
                E.oblige(st, False, 'values are parsed into an array or an object', self.tag)
                st.g[kv] = E.fresh_int('container')
            st.g[kt] = E.fresh_int('key_after')
            st.g[kr] = E.fresh_int('root')
        outs.append(Outcome('ret', st, None))
        return outs
