"""The JSON text grammar as functions of a position, and the world the parser runs in.

T[0..L) is the text, T[L] = 0.  All functions are over positions:
  ws(i)  first position from i on that is not a blank
  dg(i)  first position from i on that is not a digit
  sl(i)  position behind the string literal whose inside starts at i, or -1
  val(i) position behind the value that starts at i (after blanks), or -1
  el(i)  position behind the array whose next element starts at i, or -1
  mb(i)  position behind the object whose next member starts at i, or -1
They are defined by recursion on positions that only grow; the definitions are
instantiated at the positions the code reads.
"""
import re, z3
from .vals import *
from .exec import *
from . import build, lib
from .build import norm, find
from .ir import demangle, Ty, PTR

H = build.VERIF + '/harness/h_parse.cpp'
F1 = {n: z3.Function(n, I, I) for n in ('ws', 'dg', 'sl', 'val', 'el', 'mb')}
ws, dg, sl, val, el, mb = (F1[n] for n in ('ws', 'dg', 'sl', 'val', 'el', 'mb'))
BLANK = (32, 9, 10, 13)
ESC = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}
If, And, Or, Not = z3.If, z3.And, z3.Or, z3.Not


def digit(c):
    return And(48 <= c, c <= 57)


def hexa(c):
    return Or(digit(c), And(65 <= c, c <= 70), And(97 <= c, c <= 102))


def is_in(c, xs):
    return Or(*[c == x for x in xs])


class Grammar:
    def __init__(self, T, L):
        self.T, self.L = T, L

    def at(self, k):
        return z3.Select(self.T, k)

    def word(self, i, w):
        return And(*[self.at(i + k) == ord(c) for k, c in enumerate(w)])

    def num(self, i):
        at = self.at
        k = If(at(i) == 45, i + 1, i)
        return If(at(k) == 48, k + 1, If(And(49 <= at(k), at(k) <= 57), dg(k + 1), -1))

    def unfold(self, i, which=('ws', 'dg', 'sl', 'val', 'el', 'mb')):
        """the definitions at position i"""
        at, out = self.at, {}
        c = at(i)
        out['ws'] = ws(i) == If(is_in(c, BLANK), ws(i + 1), i)
        out['dg'] = dg(i) == If(digit(c), dg(i + 1), i)
        e = at(i + 1)
        out['sl'] = sl(i) == If(c == 34, i + 1, If(i == self.L, -1, If(c == 92, If(
            is_in(e, sorted(ESC)), sl(i + 2), If(And(e == 117, *[hexa(at(i + k)) for k in range(2, 6)]), sl(i + 6), -1)), sl(i + 1))))
        j = ws(i)
        c = at(j)
        k = ws(j + 1)
        out['val'] = val(i) == If(c == 123, If(at(k) == 125, k + 1, mb(k)), If(c == 91, If(at(k) == 93, k + 1, el(k)), If(
            c == 34, sl(j + 1), If(c == 116, If(self.word(j + 1, 'rue'), j + 4, -1), If(
                c == 102, If(self.word(j + 1, 'alse'), j + 5, -1), self.num(j))))))
        e = val(i)
        k = ws(e)
        out['el'] = el(i) == If(e < 0, -1, If(at(k) == 44, el(k + 1), If(at(k) == 93, k + 1, -1)))
        s = sl(j + 1)
        k = ws(s)
        e = val(k + 1)
        k2 = ws(e)
        out['mb'] = mb(i) == If(Or(at(j) != 34, s < 0), -1, If(Or(at(k) != 58, e < 0), -1, If(
            at(k2) == 44, mb(k2 + 1), If(at(k2) == 125, k2 + 1, -1))))
        return And(*[out[w] for w in which])


def callees(m, n):
    out = []
    for b in m.funcs[n].blocks.values():
        for I_ in b:
            if I_.op in ('call', 'invoke') and I_.x and hasattr(I_.x[0], 'k') and I_.x[0].k == 'global' and I_.x[0].v in m.funcs:
                out.append(I_.x[0].v)
    return out


def recursive_entries(m, root):
    """the functions of the recursive cycles reachable from root that are called from outside"""
    graph, work = {}, [root]
    while work:
        n = work.pop()
        if n not in graph:
            graph[n] = callees(m, n)
            work += graph[n]
    reach = {}

    def closure(n):
        if n not in reach:
            seen, w = set(), list(graph[n])
            while w:
                x = w.pop()
                if x not in seen:
                    seen.add(x)
                    w += graph[x]
            reach[n] = seen
        return reach[n]
    cyc = {n for n in graph if n in closure(n) and 'json::Parser' in norm(demangle(n))}
    comp = {n: {x for x in cyc if x in closure(n) and n in closure(x)} for n in cyc}
    ent = []
    for n in graph:
        for x in graph[n]:
            if x in cyc and (n not in cyc or n not in comp[x]) and x not in ent:
                ent.append(x)
    return ent, graph


class World:
    """the real parser over an arbitrary text"""

    def __init__(self, ctx, tag):
        self.ctx, self.tag = ctx, tag
        self.m = m = build.compile_ir(H)
        self.E = E = ctx.engine(m)
        self.st = st = State()
        E.hooks['speculate'] = 10
        E.hooks['merge'] = True
        E.hooks['variants'] = lambda E_, L: [('unread text at %s' % v.name, lambda E__, s, e, v=v: self.L - v.get(E__, s, e).z) for v in self.vars_in_text(L)]
        E.path_limit = 200000
        t = E.new_region(st, 'text object', 32, None, 'obj', 'sym', False)
        self.text = Ptr(t.rid, 0)
        self.T, self.L = lib.sym_string(E, st, self.text, 'text')
        self.D = st.g[('s', t.rid, 0)]
        E.regions[self.D].const = True
        E.regions[self.D].name = 'text'
        k = z3.Int('k!tx')
        st.assume(FA(k, z3.Implies(z3.And(0 <= k, k < self.L), z3.And(z3.Select(self.T, k) >= 0, z3.Select(self.T, k) < 256)), z3.Select(self.T, k)))
        self.G = Grammar(self.T, self.L)
        self.seen = {}
        E.hooks['read_at'] = self.read_at
        E.hooks['bounds'] = lambda E_, L: [('text length', Lin.of(self.L))]
        E.cand_gens.append(self.cands)
        E.hooks['exit_facts'] = True
        ent, self.graph = recursive_entries(m, find(m, re.compile(r'^h_parse\(')))
        if len(ent) != 1:
            raise Unsupported('recursion through %d entry functions' % len(ent))
        self.entry = ent[0]
        if m.funcs[self.entry].rty.k != 'void':
            raise Unsupported('recursive function returning a value')
        E.contracts[demangle(self.entry)] = self
        self.excs = sorted({I_.a[1].v for n in self.graph if 'json::Parser' in norm(demangle(n)) for b in m.funcs[n].blocks.values() for I_ in b
                            if I_.op in ('call', 'invoke') and hasattr(I_.x[0], 'v') and I_.x[0].v == '__cxa_throw'})
        self.capture = None
        self.measure = None
        lib_stream(E)

    # -- positions read
    def know(self, st, i, which=('ws', 'dg', 'sl', 'val', 'el', 'mb')):
        i = z3.simplify(i)
        for w in which:
            if (w, i.get_id()) not in self.seen:
                self.seen[w, i.get_id()] = (i, z3.Implies(And(0 <= i, i <= self.L), self.G.unfold(i, (w,))))
            f = self.seen[w, i.get_id()][1]
            if not any(f is x for x in st.pc):
                st.pc.append(f)

    def read_at(self, E, st, r, p):
        if r.rid == self.D:
            self.know(st, p.off.z, ('ws', 'dg', 'sl'))

    def vars_in_text(self, L):
        return [v for v in L.vars if v.kind == 'ptr' and v.rid == self.D]

    def cands(self, E, L):
        out = []
        for v in self.vars_in_text(L):
            try:
                s0 = v.get(E, L.st0, L.env0)
            except Exception:
                continue
            if s0 is None:
                continue
            self.know(L.st0, s0.z)
            out.append(('a digit at %s' % v.name, lambda E_, s, e, v=v: digit(self.G.at(v.get(E_, s, e).z))))
            out.append(('%s before the end' % v.name, lambda E_, s, e, v=v: v.get(E_, s, e).z < self.L))
            for nm, f in F1.items():
                def c(E_, s, e, v=v, f=f, s0=s0):
                    x = v.get(E_, s, e).z
                    self.know(s, x)
                    return f(x) == f(s0.z)
                out.append(('%s(%s) as at the start' % (nm, v.name), c))
        return out

    # -- the parser object
    def fields_written(self):
        """offsets of Parser fields the recursive functions store to"""
        m, out = self.m, set()
        todo, seen = [self.entry], set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            todo += self.graph[n]
            f = m.funcs[n]
            defs = {I_.res: I_ for b in f.blocks.values() for I_ in b if I_.res is not None}
            for b in f.blocks.values():
                for I_ in b:
                    if I_.op == 'store' and I_.a[1].k == 'reg':
                        d = defs.get(I_.a[1].v)
                        while d is not None and d.op == 'getelementptr' and 'json::Parser' not in str(d.x):
                            d = defs.get(d.a[0].v) if d.a and d.a[0].k == 'reg' else None
                        if d is not None and d.op == 'getelementptr':
                            ty = Ty('named', 'class.json::Parser')
                            try:
                                o, _ = m.field(m.resolve(d.x), d.a[2].v)
                                out.add(o)
                            except Exception:
                                raise Unsupported('parser field')
        return out

    def find_cursor(self, st, this):
        if hasattr(self, 'cursor'):
            return
        cells = st.mem[this.base].cells
        self.mutable = sorted(o for o in (x + this.off.c for x in self.fields_written()) if o in cells)
        cur = [o for o in self.mutable if isinstance(cells[o][1], Ptr) and cells[o][1].base == self.D]
        if len(cur) != 1:
            raise Unsupported('%d cursors into the text' % len(cur))
        self.cursor = cur[0] - this.off.c

    def set_cursor(self, st, this, i):
        rs = self.E.rs_w(st, this.base)
        for o in self.mutable:
            sz, v, ty = rs.cells[o]
            if o == this.off.c + self.cursor:
                rs.cells[o] = (8, Ptr(self.D, Lin.of(i)), PTR)
            else:
                rs.cells[o] = (sz, self.E.fresh_like(st, v, 'field'), ty)

    # -- the recursion contract
    def apply(self, E, st, args):
        this = args[0]
        if self.capture is not None:
            self.capture.append((st.clone(), this))
            return []
        self.find_cursor(st, this)
        p = st.mem[this.base].cells[this.off.c + self.cursor][1]
        if p.base != self.D:
            E.oblige(st, False, 'the cursor points into the text', self.tag)
            return []
        i = p.off.z
        E.oblige(st, And(0 <= i, i <= self.L), 'the cursor is within the text', self.tag)
        if self.measure is not None:
            E.oblige(st, i > self.measure, 'a nested value starts behind the start of the outer one (termination)', self.tag)
        self.know(st, i)
        return self.outcomes(E, st, this, i, args)

    def outcomes(self, E, st, this, i, args):
        outs = []
        for x in self.excs:
            s2 = st.clone()
            s2.assume(val(i) == -1)
            self.set_cursor(s2, this, E.fresh_int('stop'))
            outs.append(Outcome('throw', s2, x))
        e = E.fresh_int('after')
        st.assume(e == val(i), i < e, e <= self.L)
        self.set_cursor(st, this, e)
        outs.append(Outcome('ret', st, None))
        return outs


def lib_stream(E):
    """diagnostics on the standard streams are not observed"""
    def quiet(E_, st, a, I_, dm):
        p = a[0]
        if isinstance(p, Ptr) and p.base is not None and E_.regions[p.base].kind == 'global':
            return p
        return NotImplemented
    E.lib.insert(0, (lambda n, d: lib.is_ostream(n, d), quiet))
