"""C04: printed arrays and objects are well-formed JSON of their content.

Every byte written and every nested value printed drives the container
automaton: 0 start, 1 just opened, 2 after an element (in an object: after an
entry), 3 after a comma, 4 closed, 5 after a key, 6 after the colon.  The
element printed at position k must be element k."""
from eniv.spec import *
from eniv import jsonw, jout

TITLE = 'printing of arrays, objects and the remaining value kinds, observed by the container automaton'
H = build.VERIF + '/harness/h_jprint.cpp'
REPLAY = {'main': 'replay_c04.cpp', 'sources': build.LIBSRC}
ASSUMPTIONS = ['containers hold fewer than 2^31 elements', 'no element is undefined (JSON has no text for it)',
               'streams have default formatting; boost multiprecision prints an integer in decimal',
               'string values print as string literals (C03)', 'Entry::key() yields the stored key (C12)']
BLANK = lambda c: z3.Or(c == 32, c == 9, c == 10, c == 13)


class Container:
    def __init__(self, E, st, obj, tag='C04', key='con'):
        self.E, self.key, self.tag, self.obj = E, key, tag, obj
        self.open, self.close = (123, 125) if obj else (91, 93)
        st.g[(key, 'mode')] = z3.IntVal(0)
        st.g[(key, 'cnt')] = z3.IntVal(0)

    def get(self, s, k):
        return s.g[(self.key, k)]

    def feed(self, s, c):
        E = self.E
        m = self.get(s, 'mode')
        nm = z3.If(BLANK(c), m, z3.If(m == 0, z3.If(c == self.open, 1, 9), z3.If(m == 1, z3.If(c == self.close, 4, 9),
             z3.If(m == 2, z3.If(c == 44, 3, z3.If(c == self.close, 4, 9)), z3.If(m == 5, z3.If(c == 58, 6, 9), 9)))))
        E.oblige(s, z3.simplify(nm != 9), 'punctuation is written only where the grammar allows it', self.tag)
        s.g[(self.key, 'mode')] = z3.simplify(nm)

    def value(self, s, good):
        """a nested value is printed; good: it is the one due"""
        E = self.E
        m = self.get(s, 'mode')
        E.oblige(s, (m == 6) if self.obj else z3.Or(m == 1, m == 3), 'a value is printed where one is due', self.tag)
        E.oblige(s, good, 'the value printed is the next one of the container', self.tag)
        s.g[(self.key, 'mode')] = z3.IntVal(2)
        s.g[(self.key, 'cnt')] = z3.simplify(self.get(s, 'cnt') + 1)

    def keytext(self, s, good):
        E = self.E
        m = self.get(s, 'mode')
        E.oblige(s, z3.Or(m == 1, m == 3), 'a key is printed where one is due', self.tag)
        E.oblige(s, good, 'the key printed is that of the next entry', self.tag)
        s.g[(self.key, 'mode')] = z3.IntVal(5)

    def cands(self, E, L):
        g = lambda k: (lambda s: self.get(s, k))
        mode, cnt = g('mode'), g('cnt')
        out = [('opened and empty, or after an element', lambda E_, s, e: mode(s) == z3.If(cnt(s) == 0, 1, 2)),
               ('opened, or after an element and before the next', lambda E_, s, e: mode(s) == z3.If(cnt(s) == 0, 1, 3))]
        out += [('mode %d' % k, lambda E_, s, e, k=k: mode(s) == k) for k in (1, 2, 3)]
        out += [('something printed', lambda E_, s, e: cnt(s) >= 1), ('count not negative', lambda E_, s, e: cnt(s) >= 0)]
        for v in L.vars:
            if v.kind in ('int', 'ptr'):
                for d in (0, 1, -1):
                    out.append(('printed = %s%+d' % (v.name, d), lambda E_, s, e, v=v, d=d: cnt(s) == v.get(E_, s, e).z + d))
                for d in (0, 1):
                    out.append(('%s=%d iff nothing printed' % (v.name, d), lambda E_, s, e, v=v, d=d: (v.get(E_, s, e).z == d) == (cnt(s) == 0)))
        for r in L.henv:
            b = L.env0.get(r)
            if isinstance(b, B1):
                out.append(('%s iff nothing printed' % r, lambda E_, s, e, r=r: zb(e[r]) == (cnt(s) == 0)))
                out.append(('%s iff something printed' % r, lambda E_, s, e, r=r: zb(e[r]) == (cnt(s) != 0)))
        for k, ps in L.alts.items():
            for i, p in enumerate(ps):
                def one(E_, s, e, k=k, p=p):
                    v = e[k[1]] if k[0] == 'phi' else s.mem[k[0]].cells[k[1]][1]
                    return (E_.enc(v).z == E_.enc(p).z) == (cnt(s) == 0)
                out.append(('%s is the object %d iff nothing printed' % (k[1], i), one))
        for loc in L.M:
            if loc[0] == 'cell' and loc[3] == 1:
                def val(E_, s, e, loc=loc):
                    v = s.mem[loc[1]].cells[loc[2]][1]
                    return zb(v) if isinstance(v, B1) else E_.u(s, v).z != 0
                out.append(('flag %s iff nothing printed' % (loc[1:3],), lambda E_, s, e, val=val: val(E_, s, e) == (cnt(s) == 0)))
                out.append(('flag %s iff something printed' % (loc[1:3],), lambda E_, s, e, val=val: val(E_, s, e) == (cnt(s) != 0)))
        return out


def zb(v):
    return z3.BoolVal(v.t) if isinstance(v.t, bool) else v.t


def stream(E, st, feed):
    o = E.new_region(st, 'stream', 272, None, 'obj', 'sym', False)
    jout.Sink(E, o.rid, feed)
    return Ptr(o.rid, 0)


def on(E, pat, f):
    E.lib.insert(0, (lambda n, d: bool(re.match(pat, norm(d))), f))


def finish(E, outs, con, n, st0=None):
    need(E, outs)
    for x in outs:
        if x.kind != 'ret':
            E.oblige(x.st, False, 'printing ends normally', 'C04')
            continue
        E.oblige(x.st, con.get(x.st, 'mode') == 4, 'the closing bracket is written', 'C04')
        E.oblige(x.st, con.get(x.st, 'cnt') == n, 'every element is printed exactly once', 'C04')


def unit_array(ctx):
    m = build.compile_ir(H)
    E = ctx.engine(m)
    ctx.verified('json::Array::print(std::ostream&) const')
    st = State()
    A = jsonw.Args(E, st, 'array')
    st.assume(A.n < 2 ** 31 - 1)
    con = Container(E, st, False)
    os = stream(E, st, con.feed)

    def pr(E, s, a, I_, dm):
        p = a[0]
        if not isinstance(p, Ptr) or p.base != A.elems.rid or not isinstance(a[1], Ptr) or a[1].base != os.base:
            E.oblige(s, False, 'only elements are printed, to the given stream', 'C04')
            return None
        k = con.get(s, 'cnt')
        con.value(s, z3.And(p.off.z == k * A.L['Value'], k < A.n))
        return None
    on(E, r'json::Value::print\(std::ostream&\) const$', pr)
    E.cand_gens.append(con.cands)
    E.hooks['bounds'] = lambda E_, L: [('n', A.n)]
    outs = E.run(find(m, re.compile(r'h_print_array\(')), [Ptr(A.arr.rid, 0), os], st)
    finish(E, outs, con, A.n)


LIVE = lambda e: z3.And(e != 0, e != 1)
RANK = z3.Function('live_before', I, I)      # live buckets below a position
KTH = z3.Function('kth_live', I, I)          # position of the k-th live bucket
KEYA = z3.Function('entry_key', I, z3.ArraySort(I, I))
KEYN = z3.Function('entry_key_length', I, I)


class Table:
    """an arbitrary well-formed table of a json::Object, read-only"""

    def __init__(self, E, st, bucketless=False):
        L = self.L = jsonw.layout()
        n, self.N = z3.Int('buckets'), z3.Int('entries')
        self.n = n
        st.assume(n >= 0, n < 2 ** 28, self.N >= 0, self.N <= n)
        B = L['Bucket']
        self.b = E.new_region(st, 'buckets', Lin.of(n).scale(B), B, 'malloc', 'sym', False, ty='arr')
        self.b.const = True
        self.o = E.new_region(st, 'object', L['Object'], None, 'obj', 'sym', False)
        self.o.const = True
        c = st.mem[self.o.rid].cells
        c[L['Tab_buckets']] = (8, NULL if bucketless else Ptr(self.b.rid, 0), PTR)
        if bucketless:
            st.assume(n == 0)
        for k, v in (('n', n), ('entries', self.N), ('tombs', z3.Int('tombs'))):
            c[L['Tab_' + k]] = (4, IV(32, v, 0, 2 ** 32 - 1), Ty('int', 32))
        st.assume(z3.Int('tombs') >= 0, z3.Int('tombs') <= n)
        self.ENT = E.init_arr(self.b, (L['Bucket_entry'], 8, 'p'))
        i = z3.Int('i!t')
        e = z3.Select(self.ENT, i)
        st.assume(RANK(0) == 0, RANK(n) == self.N,
                  FA(i, z3.Implies(z3.And(0 <= i, i < n), z3.And(e >= 0, RANK(i + 1) == RANK(i) + z3.If(LIVE(e), 1, 0))), e),
                  FA(i, z3.Implies(z3.And(0 <= i, i < n, LIVE(e)), z3.And(KTH(RANK(i)) == i, e > 65536)), e))
        # lemma by downward induction: no position has more live buckets below it than the table has entries
        st2, j = st.clone(), z3.Int('j!ind')
        st2.assume(0 <= j, j < n, RANK(j + 1) <= self.N, self.ent(j) == self.ent(j))
        E.oblige(st2, RANK(n) <= self.N, 'rank bound: base case', 'lemma')
        E.oblige(st2, RANK(j) <= self.N, 'rank bound: induction step', 'lemma')
        st.assume(FA(i, z3.Implies(z3.And(0 <= i, i <= n), RANK(i) <= self.N), RANK(i)))

    def ent(self, i):
        return z3.Select(self.ENT, i)


def unit_object(ctx, bucketless=False):
    m = build.compile_ir(H)
    E = ctx.engine(m)
    ctx.verified('json::Object::print(std::ostream&) const', 'HashIterator<EntryIterBase, ...> (as used by it)')
    st = State()
    T = Table(E, st, bucketless)
    L = T.L
    con = Container(E, st, True)
    os = stream(E, st, con.feed)
    due = lambda s: T.ent(KTH(con.get(s, 'cnt')))

    def key(E, s, a, I_, dm):
        sret, e = a[0], E.enc(a[1]).z
        E.oblige(s, LIVE(e), 'keys are taken of existing entries only', 'C04')
        s.assume(KEYN(e) >= 0, KEYN(e) < 2 ** 40)
        lib.mk_string(E, s, sret, KEYA(e), KEYN(e))
        return None
    on(E, r'eni::internal::Entry<std::string, json::Value>::key\(\) const$', key)

    def ctor(E, s, a, I_, dm):
        E.bounds(s, a[0], L['Value'], 'value construction')
        if '~' in dm:
            s.g[('val', a[0].base, a[0].off.c)] = None
        elif re.search(r'\(std::string const&\)$', norm(dm)):
            s.g[('val', a[0].base, a[0].off.c)] = ('str', lib.sarr(E, s, a[1]), lib.slen(E, s, a[1]).z)
        elif re.search(r'\(json::Value (const&|&&)\)$', norm(dm)) and isinstance(a[1], Ptr) and a[1].base is not None:
            s.g[('val', a[0].base, a[0].off.c)] = s.g.get(('val', a[1].base, a[1].off.c))
        else:
            s.g[('val', a[0].base, a[0].off.c)] = ('unknown',)
        return None
    on(E, r'json::Value::~?Value\(', ctor)

    def pr(E, s, a, I_, dm):
        p = a[0]
        if not isinstance(p, Ptr) or not isinstance(a[1], Ptr) or a[1].base != os.base:
            E.oblige(s, False, 'printing goes to the given stream', 'C04')
            return None
        if p.base is not None and p.off.is_const():
            v = s.g.get(('val', p.base, p.off.c))
            if not v or v[0] != 'str':
                E.oblige(s, False, 'the value printed is a key or a stored value', 'C04')
                return None
            k = z3.Int('k!key')
            d = due(s)
            E.oblige(s, con.get(s, 'cnt') < T.N, 'there is a next entry', 'C04')
            E.oblige(s, v[2] == KEYN(d), 'the key printed has the length of the next entry\'s key', 'C04')
            con.keytext(s, FA(k, z3.Implies(z3.And(0 <= k, k < v[2]), z3.Select(v[1], k) == z3.Select(KEYA(d), k))))
            return None
        con.value(s, z3.And(con.get(s, 'cnt') < T.N, E.enc(p).z == due(s) + L['Entry_value']))
        return None
    on(E, r'json::Value::print\(std::ostream&\) const$', pr)
    E.cand_gens.append(con.cands)

    def walk(E, Lo):
        """positions: the cursor stands on the live bucket whose rank is the number printed, or is past the end"""
        out = []
        cnt = lambda s: con.get(s, 'cnt')
        inb = lambda i: z3.And(0 <= i, i < T.n)
        for v in Lo.vars:
            if v.kind == 'int':
                g = lambda s, e, v=v: v.get(E, s, e).z
                for d in (0, 1):
                    out.append(('live before %s%+d = printed' % (v.name, d), lambda E_, s, e, g=g, d=d: RANK(g(s, e) + d) == cnt(s)))
                    out.append(('live before %s%+d = printed+1' % (v.name, d), lambda E_, s, e, g=g, d=d: RANK(g(s, e) + d) == cnt(s) + 1))
                out.append(('%s is a live bucket' % v.name, lambda E_, s, e, g=g: z3.And(inb(g(s, e)), LIVE(T.ent(g(s, e))))))
                out.append(('%s in the table' % v.name, lambda E_, s, e, g=g: inb(g(s, e))))
                out.append(('%s within the table' % v.name, lambda E_, s, e, g=g: z3.And(g(s, e) >= 0, g(s, e) <= T.n)))
                for k in Lo.alts:
                    def p(E_, s, e, k=k):
                        return E_.enc(e[k[1]] if k[0] == 'phi' else s.mem[k[0]].cells[k[1]][1]).z
                    out.append(('cursor %s,%s' % (k, v.name), lambda E_, s, e, g=g, p=p: z3.If(p(E_, s, e) == 0, z3.And(g(s, e) == 0, cnt(s) == T.N),
                                z3.And(inb(g(s, e)), LIVE(T.ent(g(s, e))), RANK(g(s, e)) == cnt(s)))))
        return out
    E.cand_gens.append(walk)
    E.hooks['bounds'] = lambda E_, L_: [('n', T.n)]
    outs = E.run(find(m, re.compile(r'h_print_object\(')), [Ptr(T.o.rid, 0), os], st)
    finish(E, outs, con, T.N)


def unit_value(ctx):
    """the remaining kinds: booleans and integers as text, containers by their own print"""
    for kind in ('BOOL', 'INT', 'ARRAY', 'OBJECT'):
        m = build.compile_ir(H)
        E = ctx.engine(m)
        ctx.verified('json::Value::print(std::ostream&) const (%s)' % kind)
        st = State()
        L = jsonw.layout()
        st.g[('p', 'i')] = z3.IntVal(0)
        st.g[('p', 'bad')] = z3.BoolVal(False)
        from specs.c03 import value_at
        b = z3.Int('boolean')
        if kind == 'BOOL':
            st.assume(b >= 0, b <= 1)
            hold = Ptr(None, b)
        else:
            r = E.new_region(st, 'payload', 64, None, 'obj', 'sym', False)
            r.const = True
            hold = Ptr(r.rid, 0)
        v = value_at(E, st, kind, hold)
        if kind == 'BOOL':
            cells = st.mem[v.base].cells
            del cells[L['Value_hold']]
            cells[L['Value_hold']] = (1, IV(8, b, 0, 1), Ty('int', 8))

        def feed(s, c):
            i = s.g[('p', 'i')]
            if kind != 'BOOL':
                E.oblige(s, False, 'nothing but the payload is printed', 'C04')
                return
            t = lambda w: z3.Or(*[z3.And(i == k, c == ord(x)) for k, x in enumerate(w)])
            E.oblige(s, z3.If(b == 1, t('true'), t('false')), 'a boolean prints as true or false', 'C04')
            s.g[('p', 'i')] = z3.simplify(i + 1)
        os = stream(E, st, feed)

        def whole(E, s, a, I_, dm):
            d = norm(dm)
            p, o = (a[1], a[0]) if d.startswith(('std::ostream& boost', 'boost')) else (a[0], a[1])
            ok = isinstance(p, Ptr) and p.base == hold.base and p.off.is_const() and p.off.c == 0 and isinstance(o, Ptr) and o.base == os.base
            E.oblige(s, ok and kind == ('INT' if 'boost' in d else 'ARRAY' if '::Array::' in d else 'OBJECT'), 'the payload is printed by its own kind', 'C04')
            s.g[('p', 'i')] = z3.simplify(s.g[('p', 'i')] + 1)
            return o if 'boost' in d else None
        on(E, r'(std::ostream& )?boost::multiprecision::operator<< ?<', whole)
        on(E, r'json::(Array|Object)::print\(std::ostream&\) const$', whole)
        outs = E.run(find(m, re.compile(r'h_print_value\(')), [v, os], st)
        need(E, outs)
        for x in outs:
            if x.kind != 'ret':
                E.oblige(x.st, False, 'printing ends normally', 'C04')
                continue
            E.oblige(x.st, x.st.g[('p', 'i')] == (z3.If(b == 1, 4, 5) if kind == 'BOOL' else 1), 'the value is printed completely', 'C04')


UNITS = {'Array::print': unit_array, 'Object::print': unit_object, 'Object::print without buckets': lambda c: unit_object(c, True), 'Value::print by kind': unit_value}
