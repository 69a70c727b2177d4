"""JSON values as real memory (kind tag and payload pointer at their layout
positions) with Value's member functions through their contracts (C05).

content(p): the ghost content of the container or text at payload address p.
The result array of an operation is an object with a ghost content token."""
import re, z3
from .vals import *
from .exec import *
from . import lib, build, jsonw
from .build import norm
from .ir import Ty, PTR

CONT = z3.Function('content', I, I)
PUSHED = z3.Function('content_after_pushes', I, I, I)
TEXT = z3.Function('json_text', I, z3.ArraySort(I, I))
TLEN = z3.Function('json_text_length', I, I)
EMPTYTOK = z3.IntVal(0)
I32 = Ty('int', 32)


class World:
    def __init__(self, E, st):
        self.E = E
        self.L = jsonw.layout()
        E.lib.insert(0, (lambda n, d: bool(re.match(r'json::(Value|Array|Parser)::', norm(d))), self.call))
        self.parser = None
        self.root = None
        self.freed = set()

    # -- objects
    def kind(self, st, p):
        return self.E.u(st, self.E.load(st, p + self.L['Value_type'], I32)).z

    def hold(self, st, p):
        return self.E.load(st, p + self.L['Value_hold'], PTR)

    def set(self, st, p, kind, hold):
        E = self.E
        E.bounds(st, p, self.L['Value'], 'JSON value')
        E.store(st, p + self.L['Value_type'], IV(32, kind) if not isinstance(kind, IV) else kind, I32)
        E.store(st, p + self.L['Value_hold'], hold, PTR)

    def tok(self, st, p):
        """content token of the array at p"""
        if p.base is not None and p.off.is_const():
            t = st.g.get(('tok', p.base, p.off.c))
            if t is None:
                self.E.oblige(st, False, 'array used outside its lifetime')
                raise Unsupported('no array at %r' % (p,))
            return t
        return CONT(self.E.enc(p).z)

    def new_array(self, st, tok):
        E = self.E
        r = E.new_region(st, 'array', self.L['Array'], None, 'new', 'sym', True)
        st.g[('tok', r.rid, 0)] = tok
        return Ptr(r.rid, 0)

    def init_array(self, st, p, tok):
        self.E.bounds(st, p, self.L['Array'], 'array construction')
        st.g[('tok', p.base, p.off.c)] = tok

    def fresh_payload(self, st, src):
        """a deep copy of the payload at src"""
        E = self.E
        if src.base is not None:
            return self.new_array(st, self.tok(st, src))
        q = E.fresh_int('payload')
        st.assume(q > 4096, CONT(q) == CONT(E.enc(src).z))
        return Ptr(None, q)

    def text_to(self, st, os, tok):
        st.assume(TLEN(tok) >= 0, TLEN(tok) < 2 ** 40)
        k = z3.Int('k!nn')
        st.assume(FA(k, z3.Implies(z3.And(0 <= k, k < TLEN(tok)), z3.And(z3.Select(TEXT(tok), k) > 0, z3.Select(TEXT(tok), k) < 256)), z3.Select(TEXT(tok), k)))
        a = TEXT(tok)
        lib.oappend(self.E, st, os, lib.Bytes(lambda k: z3.Select(a, Lin.of(k).z), a, Lin(None, 0)), Lin.of(TLEN(tok)))

    # -- member functions by contract
    def call(self, E, st, a, I_, dm):
        d = norm(dm)
        m = re.match(r'json::(Value|Array|Parser)::(.*)$', d)
        f = getattr(self, 'f_' + m.group(1), None)
        r = f(st, a, m.group(2))
        return r

    def f_Value(self, st, a, f):
        E, L = self.E, self.L
        if f in ('Value()',) or f.startswith('is') or f.startswith('to') or f.startswith('as') or f == 'type() const':
            return NotImplemented       # inline in the header: executed in place
        if f in ('Value(json::Value const&)', 'operator=(json::Value const&)'):
            src, dst = a[1], a[0]
            k = E.load(st, src + L['Value_type'], I32)
            kz = E.u(st, k).z
            h = self.hold(st, src)
            if h.base is None:
                q = self.fresh_payload(st, h)
                w = E.fresh_int('hold')
                st.assume(z3.Implies(kz == L['BOOL'], w == E.enc(h).z), z3.Implies(kz != L['BOOL'], w == q.off.z))
                st.assume(z3.Implies(kz != L['BOOL'], z3.Or(kz == L['UNDEF'], w != E.enc(h).z)), CONT(w) == CONT(E.enc(h).z))
                h2 = Ptr(None, w)
            else:
                h2 = self.fresh_payload(st, h)
            self.set(st, dst, k, h2)
            return dst if f.startswith('op') else None
        if f == 'Value(json::Value&&)':
            k = E.load(st, a[1] + L['Value_type'], I32)
            self.set(st, a[0], k, self.hold(st, a[1]))
            E.store(st, a[1] + L['Value_type'], IV(32, L['UNDEF']), I32)
            return None
        if f == 'Value(json::Array const&)':
            self.set(st, a[0], L['ARRAY'], self.fresh_payload(st, a[1]))
            return None
        if f == 'Value(bool)':
            self.set(st, a[0], L['BOOL'], Ptr(None, E.u(st, a[1]).z))
            return None
        if re.match(r'Value\((char const\*|std::string const&|int|json::Object const&)\)$', f):
            q = E.fresh_int('payload')
            st.assume(q > 4096)
            self.set(st, a[0], L['INT'] if '(int)' in f else L['OBJECT'] if 'Object' in f else L['STRING'], Ptr(None, q))
            return None
        m = re.match(r'delegate\(json::(Array|Object)&\)$', f)
        if m:
            s2 = st.clone()
            kz = self.kind(st, a[0])
            outs = []
            if self.may(s2, kz != L['UNDEF']):
                s2.assume(kz != L['UNDEF'])
                outs.append(Outcome('throw', s2, '_ZTISt11logic_error'))
            if self.may(st, kz == L['UNDEF']):
                st.assume(kz == L['UNDEF'])
                self.set(st, a[0], L['ARRAY' if m.group(1) == 'Array' else 'OBJECT'], a[1])
                outs.append(Outcome('ret', st, a[0]))
            return outs
        if f == '~Value()':
            E.bounds(st, a[0], L['Value'], 'value destruction')
            h = self.hold(st, a[0])
            if isinstance(h, Ptr) and h.base is not None and self.must(st, self.kind(st, a[0]) == L['ARRAY']):
                st.g[('tok', h.base, h.off.c)] = None
                E.free(st, h, ('new',), 'delete')
            E.store(st, a[0] + L['Value_type'], IV(32, L['UNDEF']), I32)
            E.store(st, a[0] + L['Value_hold'], NULL, PTR)
            return None
        if f == 'print(std::ostream&) const':
            h = self.hold(st, a[0])
            if self.must(st, self.kind(st, a[0]) == L['ARRAY']):
                self.text_to(st, a[1], self.tok(st, h))
            else:
                self.text_to(st, a[1], E.fresh_int('unknown_text'))
            return None
        return NotImplemented

    def may(self, st, f):
        return self.E.P.sat(st.pc, f, 2000)[0] != z3.unsat

    def must(self, st, f):
        return self.E.P.valid_quick(st, f)

    def f_Array(self, st, a, f):
        E, L = self.E, self.L
        if f == 'Array()':
            self.init_array(st, a[0], EMPTYTOK)
            return None
        if f == 'Array(json::Array const&)':
            self.init_array(st, a[0], self.tok(st, a[1]))
            return None
        if f == '~Array()':
            self.tok(st, a[0])
            st.g[('tok', a[0].base, a[0].off.c)] = None
            return None
        if f == 'operator=(json::Array const&)':
            t = self.tok(st, a[1])
            self.tok(st, a[0])
            st.g[('tok', a[0].base, a[0].off.c)] = t
            return a[0]
        if f == 'print(std::ostream&) const':
            self.text_to(st, a[1], self.tok(st, a[0]))
            return None
        return NotImplemented

    def f_Parser(self, st, a, f):
        E = self.E
        if f == 'Parser(std::string const&)':
            self.on_parse(st, a[1])
            r = E.new_region(st, 'root', self.L['Value'], None, 'obj', 'sym', True)
            k, h = z3.Int('kind'), z3.Int('root_payload')
            self.set(st, Ptr(r.rid, 0), IV(32, k, 0, 5), Ptr(None, h))
            st.assume(h >= 0, h < 2 ** 62)
            st.g[('parser', a[0].base, a[0].off.c)] = r.rid
            return None
        key = ('parser', a[0].base, a[0].off.c)
        rid = st.g.get(key)
        if rid is None:
            E.oblige(st, False, 'parser used outside its lifetime')
            raise Unsupported('parser')
        if f == '~Parser()':
            st.g[key] = None
            E.rs_w(st, rid).alive = False
            return None
        if f == 'operator bool() const':
            return B1(z3.Bool('accepted'))
        if f == 'getRoot()':
            E.oblige(st, z3.Bool('accepted'), 'the value of rejected text is not used', 'C14')
            return Ptr(rid, 0)
        return NotImplemented
