"""C12: string maps keep every key intact, whatever its length or bytes."""
from eniv.spec import *
from eniv import htab
from eniv.htab import *
from specs import c09, c11

TITLE = 'entries with inline keys, and every StringMap operation, for arbitrary keys and an arbitrary well-formed map'
REPLAY = {'main': 'replay_c12.cpp', 'sources': build.LIBSRC}
ASSUMPTIONS = ['value copies, assignments and destructions behave as such and do not throw', 'malloc and calloc succeed',
               'fewer than 2^28 slots', 'keys are shorter than 2^62 bytes']
SRC = build.VERIF + '/harness/h_smap.cpp'
ENTRY = r'eni::internal::Entry<std::string, V>::'
ALLOC = r'eni::MallocAllocator<eni::internal::Entry<std::string, V> >::'
LENGTH = z3.Function('length', I, I)


class Applied:
    def __init__(self, f):
        self.f = f

    def apply(self, E, st, args):
        return self.f(E, st, args)


# ---- A: the entry, on real memory
class Entries:
    """one entry on real memory: the key argument, an opaque value"""

    def __init__(self, ctx):
        self.ctx = ctx
        m = self.m = build.compile_ir(SRC)
        E = self.E = ctx.engine(m)
        st = self.st = State()
        on = lambda pat, f: E.lib.insert(0, (lambda n, d: bool(re.match(pat, norm(d))), f))
        on(r'V::V\(\)$', self.v_new)
        on(r'V::operator=\(V const&\)$', self.v_set)
        on(r'V::~V\(\)$', self.v_del)
        self.size = m.glob('k_Entry')[1].v
        self.vsize = m.glob('k_V')[1].v
        self.voff = jsonw.probe(m, 'p_value')
        s = E.new_region(st, 'key', 32, None, 'obj', 'sym', False)
        self.key = Ptr(s.rid, 0)
        self.arr, self.n = lib.sym_string(E, st, self.key, 'key')
        D = st.g[('s', s.rid, 0)]
        E.regions[D].const = True
        k = z3.Int('k!b')
        st.assume(FA([k], z3.And(S(self.arr, k) >= 0, S(self.arr, k) < 256), S(self.arr, k)))
        E.hooks['malloc'] = self.malloc
        E.hooks['variants'] = lambda E_, L: []
        E.hooks['bounds'] = lambda E_, L: [('length of the key', self.n)]
        self.al = Ptr(E.new_region(st, 'allocator', 1, None, 'obj', 'sym', False).rid, 0)
        self.vals = {}

    def malloc(self, E, st, n):
        if n.is_const():
            return None
        r = E.new_region(st, 'entry', n, 1, 'malloc', 'uninit', True, ty='arr')
        r.header = self.size
        return Ptr(r.rid, 0)

    def v_new(self, E, st, a, I_, dm):
        E.oblige(st, st.g.get(('V', a[0].base, a[0].off.c)) is None, 'a value is constructed once', 'lifetime')
        E.bounds(st, a[0], self.vsize, 'value construction')
        st.g[('V', a[0].base, a[0].off.c)] = z3.IntVal(0)

    def v_set(self, E, st, a, I_, dm):
        E.oblige(st, st.g.get(('V', a[0].base, a[0].off.c)) is not None, 'the value assigned exists', 'lifetime')
        E.bounds(st, a[0], self.vsize, 'value assignment')
        st.g[('V', a[0].base, a[0].off.c)] = st.g[('V', a[1].base, a[1].off.c)]
        # any bytes of the value may change
        c = E.rs_w(st, a[0].base).cells
        for o in [o for o in c if a[0].off.c <= o < a[0].off.c + self.vsize]:
            del c[o]
        return a[0]

    def v_del(self, E, st, a, I_, dm):
        E.oblige(st, st.g.get(('V', a[0].base, a[0].off.c)) is not None, 'the value destroyed exists', 'lifetime')
        st.g[('V', a[0].base, a[0].off.c)] = None

    def fn(self, n):
        return find(self.m, re.compile(r'^%s\(' % n))

    def call(self, name, args, st):
        """states and values of the returning executions"""
        E = self.E
        outs = E.run(self.fn(name), args, st)
        need(E, outs)
        for o in outs:
            if o.kind != 'ret':
                E.oblige(o.st, False, '%s returns' % name, 'C12')
        return [(o.st, o.val) for o in outs if o.kind == 'ret']

    def made(self):
        return self.call('e_new', [self.al, self.key], self.st.clone())

    def reads_key(self, s, x, what):
        """key() of the entry is the key given, byte for byte"""
        E = self.E
        p = Ptr(E.new_region(s, 'result', 32, None, 'obj', 'sym', False).rid, 0)
        for s2, _ in self.call('e_key', [p, x], s.clone()):
            i = E.fresh_int('i')
            m, b = lib.slen(E, s2, p), lib.sarr(E, s2, p)
            E.oblige(s2, m.z == self.n, '%s: the stored key has the length of the key' % what, 'C12')
            s3 = s2.clone()
            s3.assume(0 <= i, i < self.n)
            E.oblige(s3, S(b, i) == S(self.arr, i), '%s: the stored key has the bytes of the key' % what, 'C12')


def entry_key(ctx):
    X = Entries(ctx)
    ctx.verified('Entry<std::string, V>::Entry', 'Entry<std::string, V>::key', 'MallocAllocator<Entry<std::string, V>>::allocate')
    for s, x in X.made():
        E = X.E
        E.oblige(s, E.regions[x.base].kind == 'malloc' and x.off.is_const() and x.off.c == 0 if x.base is not None else False, 'an entry lives in storage of its own', 'C12')
        X.reads_key(s, x, 'a new entry')


def entry_value(ctx):
    X = Entries(ctx)
    ctx.verified('Entry<std::string, V>::setValue', 'Entry<std::string, V>::value')
    E = X.E
    v = E.new_region(X.st, 'v', X.vsize, None, 'obj', 'sym', False)
    X.st.g[('V', v.rid, 0)] = z3.Int('value')
    w, _ = ivar(E, X.st, 'w', 64, True)
    for s, x in X.made():
        for s1, _ in X.call('e_set', [x, Ptr(v.rid, 0)], s.clone()):
            X.reads_key(s1, x, 'after setting the value')
            for nm in ('e_get', 'e_ref'):
                for s2, r in X.call(nm, [x], s1.clone()):
                    E.oblige(s2, isinstance(r, Ptr) and r.base == x.base and r.off.is_const() and s2.g.get(('V', r.base, r.off.c)) is z3.Int('value')
                             or z3.BoolVal(isinstance(r, Ptr) and r.base == x.base) and s2.g.get(('V', r.base, r.off.c)) == z3.Int('value'), 'the value set is the value read', 'C12')
        for s1, _ in X.call('e_write', [x, w], s.clone()):
            X.reads_key(s1, x, 'after writing through the value')


def entry_delete(ctx):
    X = Entries(ctx)
    ctx.verified('Entry<std::string, V>::~Entry', 'MallocAllocator<Entry<std::string, V>>::deallocate')
    for s, x in X.made():
        vs = [k for k in s.g if k[0] == 'V' and s.g[k] is not None]
        for s1, _ in X.call('e_del', [X.al, x], s.clone()):
            X.E.oblige(s1, not s1.mem[x.base].alive, 'the storage of a deleted entry is released', 'C12')
            X.E.oblige(s1, all(s1.g.get(k) is None for k in vs), 'the value of a deleted entry is destroyed', 'C12')


def hashing(ctx):
    X = Entries(ctx)
    ctx.verified('StringHasher<SDBM>::operator()')
    E = X.E
    E.hooks['read'] = lambda E_, st, r: seen.add(r.rid)
    seen = set()
    first = set(X.st.mem)
    outs = X.call('e_hash', [X.key], X.st.clone())
    D = X.st.g[('s', X.key.base, 0)]
    for rid in sorted(seen):
        r = E.regions[rid]
        if r.kind == 'alloca' or rid in (X.key.base, D) or r.const:
            continue
        E.oblige(X.st, False, 'hashing depends on nothing but the key (reads %s)' % r.name, 'C12')
    for s, v in outs:
        E.oblige(s, not isinstance(v, Undef), 'the hash of a key is determined', 'C12')


# ---- B: the map, over entries as specified above
class SWorld(World):
    SRC, TABLE, MEMBERS = SRC, 'StringMap', ('value',)

    def __init__(self, ctx, also=False):
        World.__init__(self, ctx, 'C12', also)
        self.st.g[('hp', 'room')] = z3.Const('heap_room', AII)
        self.owner = z3.Const('owner', AII)

    def key_hooks(self, on):
        E = self.E
        on(r'std::string::basic_string\(std::string const&\)$', self.k_copy)
        on(r'std::string::basic_string\(std::string&&\)$', self.k_move)
        on(r'std::string::operator=\(std::string const&\)$', self.k_set)
        on(r'std::string::~basic_string\(\)$', self.k_del)
        on(r'bool std::operator==<char, .*>\(std::string const&, std::string const&\)$', self.k_eq)
        on(r'bool std::operator!=<char, .*>\(std::string const&, std::string const&\)$', self.k_ne)
        on(r'std::string::(size|length)\(\) const$', self.k_len)
        on(r'std::string::compare\(std::string const&\) const$', self.k_cmp)
        cs = [(r'eni::internal::StringHasher<5u>::operator\(\)\(std::string const&\) const$', lambda E, st, a: self.h_call(E, st, a, None, None)),
              (ENTRY + r'Entry\(std::string const&\)$', self.e_ctor), (ENTRY + r'~Entry\(\)$', self.e_dtor), (ENTRY + r'key\(\) const$', self.e_key),
              (ALLOC + r'allocate\(unsigned long, std::string const\*\)$', self.allocate),
              (ALLOC + r'deallocate\(eni::internal::Entry<std::string, V>\*, unsigned long\)$', self.deallocate)]
        for n in list(self.m.funcs):
            d = demangle(n)
            for pat, f in cs:
                if re.match(pat, norm(d)):
                    E.contracts[d] = Applied(f)

    def spot(self, p):
        return ('K', p.base, p.off.c if p.off.is_const() else None)

    def kterm(self, E, st, p):
        k = st.g.get(self.spot(p))
        if k is None:
            E.oblige(st, False, 'the key compared or copied exists')
            return E.fresh_int('nokey')
        return k

    def k_put(self, E, st, p, t):
        E.bounds(st, p, 32, 'string construction')
        st.g[self.spot(p)] = t

    def k_copy(self, E, st, a, I_, dm):
        self.k_put(E, st, a[0], self.kterm(E, st, a[1]))

    def k_move(self, E, st, a, I_, dm):
        self.k_put(E, st, a[0], self.kterm(E, st, a[1]))
        st.g[self.spot(a[1])] = E.fresh_int('moved')

    def k_set(self, E, st, a, I_, dm):
        self.kterm(E, st, a[0])
        st.g[self.spot(a[0])] = self.kterm(E, st, a[1])
        return a[0]

    def k_del(self, E, st, a, I_, dm):
        self.kterm(E, st, a[0])
        st.g[self.spot(a[0])] = None

    def k_ne(self, E, st, a, I_, dm):
        return B1(self.kterm(E, st, a[0]) != self.kterm(E, st, a[1]))

    def k_cmp(self, E, st, a, I_, dm):
        x, y, r = self.kterm(E, st, a[0]), self.kterm(E, st, a[1]), E.fresh_int('compare')
        st.assume(r >= 0, r < 2 ** 32, (r == 0) == (x == y))
        return IV(32, r, 0, 2 ** 32 - 1)

    def k_len(self, E, st, a, I_, dm):
        n = LENGTH(self.kterm(E, st, a[0]))
        st.assume(n >= 0, n < 2 ** 62)
        return IV(64, n, 0, 2 ** 62)

    # contracts of the entry and its allocator; discharged by the entry units
    def allocate(self, E, st, a):
        k = self.kterm(E, st, a[2])
        E.oblige(st, E.u(st, a[1]).z == 1, 'entries are allocated one at a time', self.tag)
        x = E.fresh_int('entry')
        st.assume(x > 65536, S(self.hp(st, 'st'), x) == 0)
        st.g[('hp', 'st')] = z3.Store(self.hp(st, 'st'), x, 1)
        st.g[('hp', 'room')] = z3.Store(self.hp(st, 'room'), x, k)
        return Ptr(None, x)

    def deallocate(self, E, st, a):
        x = self.raw(E.settle(st, a[1]), 0)
        if x is None:
            E.oblige(st, False, 'only entries are deallocated', 'lifetime')
            return
        E.oblige(st, S(self.hp(st, 'st'), x) == 1, 'an entry is released once, after its key and value', 'lifetime')
        st.g[('hp', 'st')] = z3.Store(self.hp(st, 'st'), x, 0)

    def e_ctor(self, E, st, a):
        x, k = self.raw(E.settle(st, a[0]), 0), self.kterm(E, st, a[1])
        if x is None:
            raise Unsupported('an entry outside the entry heap')
        E.oblige(st, S(self.hp(st, 'st'), x) == 1, 'an entry is constructed once, in allocated storage', 'lifetime')
        E.oblige(st, LENGTH(k) <= LENGTH(S(self.hp(st, 'room'), x)), 'the key fits into the storage allocated for it', 'lifetime')
        st.g[('hp', 'st')] = z3.Store(self.hp(st, 'st'), x, 7)
        st.g[('hp', 'key')] = z3.Store(self.hp(st, 'key'), x, k)
        st.g[('hp', 'val')] = z3.Store(self.hp(st, 'val'), x, self.DEF)
        self.placed(E, st, x, k)

    def e_dtor(self, E, st, a):
        x = self.raw(E.settle(st, a[0]), 0)
        if x is None:
            raise Unsupported('an entry outside the entry heap')
        E.oblige(st, S(self.hp(st, 'st'), x) == 7, 'the entry destroyed exists', 'lifetime')
        st.g[('hp', 'st')] = z3.Store(self.hp(st, 'st'), x, 1)

    def e_key(self, E, st, a):
        x = self.raw(E.settle(st, a[1]), 0)
        if x is None:
            raise Unsupported('an entry outside the entry heap')
        E.oblige(st, S(self.hp(st, 'st'), x) == 7, 'the entry whose key is read exists', 'lifetime')
        self.k_put(E, st, a[0], S(self.hp(st, 'key'), x))

    def key(self, how='free', T=None):
        E, st = self.E, self.st
        r = E.new_region(st, 'key', 32, None, 'obj', 'sym', False)
        k = z3.Int('k')
        st.g[('K', r.rid, 0)] = k
        self.keys.append(k)
        return Ptr(r.rid, 0), k


def begin(ctx, shape, key=True):
    W = SWorld(ctx)
    T = W.table('t', shape)
    p, k = W.key() if key else (None, None)
    W.st0 = W.st.clone()
    return W, T, p, k


def run(W, name, args, kinds=('ret',)):
    outs = W.E.run(W.fn(name), args, W.st.clone())
    need(W.E, outs, kinds)
    return outs


def index(shape):
    def f(ctx):
        W, T, p, k = begin(ctx, shape)
        E = W.E
        ctx.verified('StringMap::operator[]', 'HashTable::insert')
        had = W.look(W.st0, T.rid, k)
        for o in run(W, 'h_index', [T.ptr, p]):
            s = o.st
            if o.kind != 'ret':
                E.oblige(s, False, 'index access returns', W.tag)
                continue
            r = E.enc(o.val).z - W.o['value']
            rid = well_formed(W, s, T.ptr, 'after index access')
            E.oblige(s, T.fields(s)[2] == T.cnt + z3.If(had != 0, 0, 1), 'the size grows exactly for a new key', W.tag)
            E.oblige(s, W.look(s, rid, k) == r, 'the value returned is that of the key', W.tag)
            E.oblige(s, z3.Implies(had != 0, z3.And(r == had, S(W.hp(s, 'val'), r) == S(W.hp(W.st0, 'val'), r))), 'a present key keeps its value', W.tag)
            E.oblige(s, z3.Implies(had == 0, z3.And(r > 65536, S(W.hp(W.st0, 'st'), r) == 0)), 'a new key gets an entry of its own', W.tag)
            E.oblige(s, z3.And(S(W.hp(s, 'st'), r) == 7, S(W.hp(s, 'key'), r) == k), 'the entry holds the key', W.tag)
            c09.same_heap(W, s, r)
            c09.same_map(W, s, T, rid, k)
    return f


def checked(name, shape):
    def f(ctx):
        W, T, p, k = begin(ctx, shape)
        E = W.E
        ctx.verified('StringMap::at' if 'at' in name else 'StringMap::operator[]', 'HashTable::find')
        had = W.look(W.st0, T.rid, k)
        kinds = ('throw',) if shape == 'null' else ('ret', 'throw')
        for o in run(W, name, [T.ptr, p], kinds):
            s = o.st
            if o.kind == 'ret':
                E.oblige(s, had != 0, 'an absent key is reported', W.tag)
                E.oblige(s, E.enc(o.val).z == had + W.o['value'], 'checked access returns the value of the key', W.tag)
            elif o.kind == 'throw':
                E.oblige(s, E.exc_matches(o.val, '_ZTISt12out_of_range'), 'an absent key is reported as an out-of-range error', W.tag)
                E.oblige(s, had == 0, 'an error is reported only for an absent key', W.tag)
            else:
                E.oblige(s, False, 'checked access returns or reports', W.tag)
                continue
            c09.unchanged(W, s, T)
    return f


def erase(shape):
    def f(ctx):
        W, T, p, k = begin(ctx, shape)
        E = W.E
        ctx.verified('HashTable::erase')
        had = W.look(W.st0, T.rid, k)
        for o in run(W, 'h_erase', [T.ptr, p]):
            s = o.st
            if o.kind != 'ret':
                E.oblige(s, False, 'erase returns', W.tag)
                continue
            E.oblige(s, zbool(E.b1(s, o.val)) == (had != 0), 'erase reports whether the key was present', W.tag)
            rid = well_formed(W, s, T.ptr, 'after erase')
            E.oblige(s, T.fields(s)[2] == T.cnt - z3.If(had != 0, 1, 0), 'the size shrinks exactly for a present key', W.tag)
            E.oblige(s, W.look(s, rid, k) == 0, 'the key is gone', W.tag)
            E.oblige(s, z3.Implies(had != 0, S(W.hp(s, 'st'), had) == 0), 'its entry is released', W.tag)
            c09.same_heap(W, s, had)
            c09.same_map(W, s, T, rid, k)
    return f


def look(name, shape):
    def f(ctx):
        W, T, p, k = begin(ctx, shape)
        E = W.E
        ctx.verified('StringMap::find')
        it = W.raw_obj(W.sz['Iter'], 'it')
        W.st0 = W.st.clone()
        had = W.look(W.st0, T.rid, k)
        for o in run(W, name, [it, T.ptr, p]):
            if o.kind != 'ret':
                E.oblige(o.st, False, 'find returns', W.tag)
                continue
            c09.unchanged(W, o.st, T)
            for o2 in E.run(W.fn('h_is_end'), [T.ptr, it], o.st):
                end = zbool(E.b1(o2.st, o2.val))
                E.oblige(o2.st, end == (had == 0), 'find reaches the end exactly for an absent key', W.tag)
                s3 = o2.st.clone()
                s3.assume(z3.Not(end))
                if E.P.sat(s3.pc, z3.BoolVal(True), 2000)[0] == z3.unsat:
                    continue
                for o3 in E.run(W.fn('h_cderef' if 'c' in name else 'h_deref'), [it], s3):
                    E.oblige(o3.st, E.enc(o3.val).z == had if o3.kind == 'ret' else False, 'find yields the entry of the key', W.tag)
    return f


def sizes(shape):
    def f(ctx):
        W, T, p, k = begin(ctx, shape, False)
        E = W.E
        ctx.verified('StringMap::size', 'StringMap::empty')
        for name in ('h_size', 'h_empty'):
            for o in run(W, name, [T.ptr]):
                if o.kind != 'ret':
                    E.oblige(o.st, False, '%s returns' % name, W.tag)
                elif name == 'h_size':
                    E.oblige(o.st, E.u(o.st, o.val).z == T.cnt, 'the size is the number of keys', W.tag)
                else:
                    E.oblige(o.st, zbool(E.b1(o.st, o.val)) == (T.cnt == 0), 'empty exactly without keys', W.tag)
                c09.unchanged(W, o.st, T)
    return f


def same(W, s, ptr, T, what):
    """the map at ptr holds T's old keys with equal values, in entries that exist"""
    E = W.E
    rid = well_formed(W, s, ptr, what)
    E.oblige(s, fields(W, s, ptr)[2] == T.cnt, '%s: same size' % what, W.tag)
    q = E.fresh_int('q')
    a, b = W.look(s, rid, q), W.look(W.st0, T.rid, q)
    sc = s.clone()
    if T.rid is not None:
        sc.assume(W.wfA(W.st0, T.rid, S(W.st0.g[('kpos', T.rid)], q)))
    E.oblige(sc, (a != 0) == (b != 0), '%s: the same keys' % what, W.tag)
    s2 = sc.clone()
    s2.assume(b != 0)
    E.oblige(s2, S(W.hp(s, 'val'), a) == S(W.hp(W.st0, 'val'), b), '%s: equal values' % what, W.tag)
    return rid


def distinct(W, s, a, b):
    W.E.oblige(s, a is None or a != b, 'the maps share no slots', W.tag)
    if a is None or b is None:
        return
    E = W.E
    p, q = E.fresh_int('p'), E.fresh_int('q')
    s = s.clone()
    x, y = S(W.ent(s, a), p), S(W.ent(s, b), q)
    s.assume(0 <= p, p < W.slots(E, a), 0 <= q, q < W.slots(E, b), live(x), live(y))
    s.assume(W.wfA(s, a, p), W.wfA(s, b, q))
    for T in W.tables:
        if T.rid is not None:
            s.assume(W.wfA(W.st0, T.rid, p), W.wfA(W.st0, T.rid, q))
    E.oblige(s, x != y, 'the maps share no entries', W.tag)


def built(name, shape):
    def f(ctx):
        W = SWorld(ctx, True)
        T = c11.table(W, 'src', shape, 1)
        p = W.raw_obj(W.sz['T'], 'dst')
        ctx.verified('StringMap::StringMap (%s)' % name[2:])
        for o in c11.returns(W, name, [p, T.ptr], 'construction'):
            a = same(W, o.st, p, T, 'the new map')
            if name == 'h_copy':
                b = c11.kept(W, o.st, T, 'the source')
            else:
                b = well_formed(W, o.st, T.ptr, 'the source')
            distinct(W, o.st, a, b)
    return f


def assign(name, to, shape):
    def f(ctx):
        W = SWorld(ctx, True)
        T = c11.table(W, 'src', shape, 1)
        D_ = c11.table(W, 'dst', to, 2)
        E = W.E
        ctx.verified('StringMap::operator= (%s)' % name[2:])
        for o in c11.returns(W, name, [D_.ptr, T.ptr], 'assignment'):
            E.oblige(o.st, E.b1(o.st, E.pcmp(o.st, 'eq', o.val, D_.ptr)), 'assignment returns the assigned map', W.tag)
            a = same(W, o.st, D_.ptr, T, 'the assigned map')
            if name == 'h_assign':
                b = c11.kept(W, o.st, T, 'the source')
            else:
                b = well_formed(W, o.st, T.ptr, 'the source')
            distinct(W, o.st, a, b)
            c11.heap_kept(W, o.st, lambda x: z3.And(S(W.owner, x) != 2, S(W.owner, x) != 1) if name != 'h_assign' else S(W.owner, x) != 2, 'entries of other maps are kept')
    return f


def self_assign(name, shape):
    def f(ctx):
        W = SWorld(ctx, True)
        T = c11.table(W, 't', shape, 1)
        E = W.E
        ctx.verified('StringMap::operator= (self)')
        for o in c11.returns(W, name, [T.ptr, T.ptr], 'self-assignment'):
            E.oblige(o.st, E.b1(o.st, E.pcmp(o.st, 'eq', o.val, T.ptr)), 'assignment returns the assigned map', W.tag)
            same(W, o.st, T.ptr, T, 'the map assigned to itself')
    return f


def new(ctx):
    W = SWorld(ctx)
    E = W.E
    p = W.raw_obj(W.sz['T'], 't')
    v, n = ivar(E, W.st, 'size')
    W.st.assume(n < MAXN)
    ctx.verified('StringMap::StringMap(size)')
    for o in c11.returns(W, 'h_new', [p, v], 'construction'):
        c11.vacant(W, o.st, p, 'a fresh map')


def delete(shape):
    def f(ctx):
        W = SWorld(ctx, True)
        T = c11.table(W, 't', shape, 1)
        ctx.verified('StringMap::~StringMap')
        for o in c11.returns(W, 'h_delete', [T.ptr], 'destruction'):
            c11.heap_kept(W, o.st, lambda x: S(W.owner, x) != 1, 'entries of other maps are kept')
    return f


UNITS = {'entry key': entry_key, 'entry value': entry_value, 'entry delete': entry_delete, 'hash': hashing, 'lemmas': lemmas, 'new': new}
for sh in ('slots', 'null'):
    UNITS['index (%s)' % sh] = index(sh)
    for name, t in (('h_at', 'at'), ('h_cat', 'at const'), ('h_cindex', 'index const')):
        UNITS['%s (%s)' % (t, sh)] = checked(name, sh)
    UNITS['erase (%s)' % sh] = erase(sh)
    UNITS['find (%s)' % sh] = look('h_find', sh)
    UNITS['find const (%s)' % sh] = look('h_cfind', sh)
    UNITS['size and empty (%s)' % sh] = sizes(sh)
    UNITS['copy (%s)' % sh] = built('h_copy', sh)
    UNITS['move (%s)' % sh] = built('h_move', sh)
    UNITS['delete (%s)' % sh] = delete(sh)
    UNITS['self-assign (%s)' % sh] = self_assign('h_assign', sh)
    UNITS['self-move-assign (%s)' % sh] = self_assign('h_move_assign', sh)
    for to in ('slots', 'null'):
        UNITS['assign (%s to %s)' % (sh, to)] = assign('h_assign', to, sh)
        UNITS['move-assign (%s to %s)' % (sh, to)] = assign('h_move_assign', to, sh)
