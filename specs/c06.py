"""C06: indexing a value by key or position, by kind and over all keys and positions."""
from eniv.spec import *
from eniv import jsonw
import specs.c05 as c05

TITLE = 'Value::operator[] by key and by position'
REPLAY = {'main': 'replay_c05.cpp', 'sources': build.LIBSRC}
ASSUMPTIONS = ['reading a StringMap by key yields the entry of that key or reports an out-of-range error (C12)']
I32 = Ty('int', 32)
OOR = '_ZTISt12out_of_range'


class W6(c05.World):
    """values plus static initialisation of the translation unit"""

    def __init__(self, ctx):
        super().__init__(ctx, 'C06')
        for f in static_ctors(self.m):
            outs = self.E.run(f, [], self.st)
            need(self.E, outs)
            if len(outs) != 1 or outs[0].kind != 'ret':
                raise Unsupported('static initialisation branches')
            self.st = outs[0].st


def static_ctors(m):
    return sorted(n for n in m.funcs if n.startswith('_GLOBAL__sub_I_'))


def undefined(W, s, p, args):
    E = W.E
    E.oblige(s, isinstance(p, Ptr) and p.base is not None and p.base in s.mem and s.mem[p.base].alive and E.regions[p.base].kind not in ('stack',), 'an existing value is returned', 'C06')
    E.oblige(s, W.kind(s, p) == W.L['UNDEF'], 'the undefined value is returned', 'C06')


def wrong(nm, skip, mkarg):
    def u(ctx):
        ctx.verified('json::Value::operator[]')
        for k in c05.KINDS:
            if k == skip:
                continue
            W = W6(ctx)
            v, h, t = W.value(k, 'v')
            a = mkarg(W)
            W.run(nm, [v, a], lambda s, r: undefined(W, s, r, a))
    return u


def position(W):
    v, W.i = ivar(W.E, W.st, 'i', 32, True)
    return v


def key(W):
    r = W.E.new_region(W.st, 'key', 32, None, 'obj', 'sym', False)
    r.const = True
    return Ptr(r.rid, 0)


def u_array(ctx):
    ctx.verified('json::Value::operator[](int)', 'json::Array::operator[](int)', 'eni::Vector<json::Value>::at')
    W = W6(ctx)
    E, st = W.E, W.st
    A = jsonw.Args(E, st, 'payload')
    v = Ptr(E.new_region(st, 'v', W.L['Value'], None, 'obj', 'sym', False).rid, 0)
    E.regions[v.base].const = True
    c = st.mem[v.base].cells
    c[W.L['Value_hold']] = (8, Ptr(A.arr.rid, 0), PTR)
    c[W.L['Value_type']] = (4, IV(32, W.L['ARRAY']), I32)
    i = position(W)
    outs = E.run(W.fn('h_index_pos'), [v, i], st)
    need(E, outs, ('ret', 'throw'))
    for o in outs:
        inside = z3.And(W.i >= 0, W.i < A.n)
        if o.kind == 'throw':
            E.oblige(o.st, E.exc_matches(o.val, OOR), 'the error is out-of-range', 'C06')
            E.oblige(o.st, z3.Not(inside), 'no error is reported inside the bounds', 'C06')
        else:
            E.oblige(o.st, inside, 'an error is reported outside the bounds', 'C06')
            E.oblige(o.st, o.val.base == A.elems.rid, 'an element is returned', 'C06')
            if o.val.base == A.elems.rid:
                E.oblige(o.st, o.val.off.z == W.i * W.L['Value'], 'the element of the position is returned', 'C06')


def u_object(ctx):
    ctx.verified('json::Value::operator[](std::string const&)')
    W = W6(ctx)
    E, st = W.E, W.st
    v, h, t = W.value('OBJECT', 'v')
    k = key(W)
    present = z3.Bool('key_present')
    ent = Ptr(E.new_region(st, 'entry_value', W.L['Value'], None, 'new', 'sym', False).rid, 0)
    E.regions[ent.base].const = True

    def read(E_, s, a, I_, dm):
        E.oblige(s, a[0].base == h.base and a[0].off.is_const() and a[0].off.c == 0, 'the object of the value is read', 'C06')
        E.oblige(s, a[1].base == k.base and a[1].off.c == 0, 'the given key is looked up', 'C06')
        s2 = s.clone() if hasattr(s, 'clone') else s.copy()
        s.assume(present)
        s2.assume(z3.Not(present))
        return [Outcome('ret', s, ent), Outcome('throw', s2, OOR)]

    def write(E_, s, a, I_, dm):
        E.oblige(s, present, 'a read-only object is not extended with an absent key', 'C06')
        return ent
    on = lambda pat, f: E.lib.insert(0, (lambda n, d: bool(re.match(pat, norm(d))), f))
    on(r'eni::StringMap<json::Value>::(at|operator\[\])\(.*\) const$', read)
    on(r'eni::StringMap<json::Value>::operator\[\]\(.*\)$(?<!const)', write)

    def at_(E_, s, a, I_, dm):
        return read(E_, s, a, I_, dm)
    on(r'eni::StringMap<json::Value>::at\(.*\)$(?<!const)', at_)
    outs = E.run(W.fn('h_index_key'), [v, k], st)
    need(E, outs, ('ret', 'throw'))
    for o in outs:
        if o.kind == 'throw':
            E.oblige(o.st, z3.Not(present), 'no error is reported for a present key', 'C06')
            E.oblige(o.st, E.exc_matches(o.val, OOR), 'the error is out-of-range', 'C06')
        else:
            E.oblige(o.st, present, 'an error is reported for an absent key', 'C06')
            E.oblige(o.st, isinstance(o.val, Ptr) and o.val.base == ent.base and o.val.off.c == 0, 'the value of the entry is returned', 'C06')


UNITS = {'by key, not an object': wrong('h_index_key', 'OBJECT', key), 'by position, not an array': wrong('h_index_pos', 'ARRAY', position),
         'an array by position': u_array, 'an object by key': u_object}
