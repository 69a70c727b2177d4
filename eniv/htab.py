"""The hash table at opaque key, value and hasher types: an arbitrary
well-formed table in real memory (bucket array) over a ghost heap of entries,
the contract of every operation, and loop invariants about probing, rehashing
and copying.  Used by C09 (map), C10 (iteration), C11 (copies)."""
import re, z3
from .vals import *
from .exec import *
from . import build, lib, jsonw
from .build import norm, find
from .ir import Ty, PTR
from .spec import *

SRC = build.VERIF + '/harness/h_table.cpp'
AII = z3.ArraySort(I, I)
LV = z3.Function('stored', AII, I, I)           # entries among the first m slots
TB = z3.Function('erased', AII, I, I)           # tombstones among the first m slots
EMPTY = z3.Function('an_empty_slot', AII, I, I)
FULL = z3.Function('a_stored_slot', AII, I, I)
HASH = z3.Function('hash', I, I)
UMOD = z3.Function('umod', I, I, I)
S = z3.Select
MAXN = 2 ** 28


def live(x):
    return z3.And(x != 0, x != 1)


def D(a, b, n):
    """slots passed walking cyclically from a to b"""
    return z3.If(b >= a, b - a, b - a + n)


def home(x, n):
    return x % n if z3.is_int_value(n) else UMOD(x, n)


def lv(x):
    return z3.If(live(x), 1, 0)


def tb(x):
    return z3.If(x == 1, 1, 0)


# ---- facts about the counting functions; each proved by induction in the unit 'lemmas'
def f_step(e, m):
    return z3.Implies(m >= 0, z3.And(LV(e, m + 1) == LV(e, m) + lv(S(e, m)), TB(e, m + 1) == TB(e, m) + tb(S(e, m))))


def f_range(e, m):
    return z3.Implies(m >= 0, z3.And(LV(e, m) >= 0, TB(e, m) >= 0, LV(e, m) + TB(e, m) <= m))


def f_store(e, n, i, t, e2):
    return z3.Implies(z3.And(0 <= i, i < n), z3.And(LV(e2, n) == LV(e, n) - lv(S(e, i)) + lv(t), TB(e2, n) == TB(e, n) - tb(S(e, i)) + tb(t)))


def f_mono(e, c, n):
    return z3.Implies(z3.And(0 <= c, c <= n), z3.And(LV(e, c) <= LV(e, n), TB(e, c) <= TB(e, n)))


def f_empty(e, n):
    z = EMPTY(e, n)
    return z3.Implies(z3.And(n >= 0, LV(e, n) + TB(e, n) < n), z3.And(0 <= z, z < n, z3.Not(live(S(e, z))), S(e, z) != 1))


def f_full(e, n):
    z = FULL(e, n)
    return z3.Implies(z3.And(n >= 0, LV(e, n) > 0), z3.And(0 <= z, z < n, live(S(e, z))))


def f_none(e, n):
    i = z3.Int('i!none')
    return FA([i], z3.Implies(z3.And(LV(e, n) == 0, 0 <= i, i < n), z3.Not(live(S(e, i)))), S(e, i))


def lemmas(ctx):
    """the counting facts, from the recursive definition, by induction"""
    W = World(ctx)
    E = W.E
    e, f = z3.Consts('e f', AII)
    i, n, m, t, j = z3.Ints('i n m t j')
    base = lambda a: z3.And(LV(a, 0) == 0, TB(a, 0) == 0)
    a = Lemma(E, 'counts are counts').have(base(e))
    a.show(f_range(e, z3.IntVal(0)), 'base')
    Lemma(E, 'counts are counts').have(m >= 0, f_range(e, m), f_step(e, m)).show(f_range(e, m + 1), 'step')
    # store: prefix not containing i unchanged; prefix containing i changed by the slot
    P = lambda k: z3.And(z3.Implies(k <= i, z3.And(LV(f, k) == LV(e, k), TB(f, k) == TB(e, k))),
                         z3.Implies(i < k, z3.And(LV(f, k) == LV(e, k) - lv(S(e, i)) + lv(t), TB(f, k) == TB(e, k) - tb(S(e, i)) + tb(t))))
    hs = [f == z3.Store(e, i, t), i >= 0]
    Lemma(E, 'changing one slot').have(base(e), base(f), *hs).show(P(z3.IntVal(0)), 'base')
    Lemma(E, 'changing one slot').have(m >= 0, P(m), f_step(e, m), f_step(f, m), *hs).show(P(m + 1), 'step')
    Lemma(E, 'changing one slot').have(P(n), *hs).show(f_store(e, n, i, t, f), 'conclusion')
    Q = lambda k: z3.And(LV(e, m) <= LV(e, k), TB(e, m) <= TB(e, k))
    Lemma(E, 'prefix counts').have(m >= 0).show(Q(m), 'base')
    Lemma(E, 'prefix counts').have(m >= 0, j >= m, Q(j), f_step(e, j)).show(Q(j + 1), 'step')
    # an empty slot below m, or none and LV+TB == m
    allfull = lambda k: FA([j], z3.Implies(z3.And(0 <= j, j < k), z3.Or(live(S(e, j)), S(e, j) == 1)), S(e, j))
    Lemma(E, 'an empty slot exists').have(base(e)).show(LV(e, 0) + TB(e, 0) == 0, 'base')
    Lemma(E, 'an empty slot exists').have(m >= 0, z3.Implies(allfull(m), LV(e, m) + TB(e, m) == m), f_step(e, m), allfull(m + 1)).show(
        LV(e, m + 1) + TB(e, m + 1) == m + 1, 'step')
    alldead = lambda k: FA([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(live(S(e, j)))), S(e, j))
    Lemma(E, 'a stored slot exists').have(m >= 0, z3.Implies(alldead(m), LV(e, m) == 0), f_step(e, m), alldead(m + 1)).show(LV(e, m + 1) == 0, 'step')
    R = lambda k: z3.Implies(LV(e, k) == 0, alldead(k))
    Lemma(E, 'nothing stored').have(base(e)).show(R(z3.IntVal(0)), 'base')
    Lemma(E, 'nothing stored').have(m >= 0, R(m), f_step(e, m), f_range(e, m), LV(e, m + 1) == 0, 0 <= j, j < m + 1).show(z3.Not(live(S(e, j))), 'step')
    z = z3.K(I, z3.IntVal(0))
    Lemma(E, 'all slots empty').have(m >= 0, LV(z, m) == 0, TB(z, m) == 0, f_step(z, m)).show(z3.And(LV(z, m + 1) == 0, TB(z, m + 1) == 0), 'step')


class World:
    SRC, TABLE, MEMBERS = SRC, 'HashTable', ('key', 'value')

    def __init__(self, ctx, tag='C09', also=None):
        self.ctx, self.tag = ctx, tag
        m = self.m = build.compile_ir(self.SRC)
        E = self.E = ctx.engine(m)
        g = lambda n: m.glob(n)[1].v
        self.sz = {k: g('k_' + k) for k in ('T', 'Entry', 'Bucket', 'Iter', 'Chain')}
        self.ek, self.hk = (g('k_entry'), 8, 'p'), (g('k_hash'), 4, 'i')
        self.o = {k: jsonw.probe(m, 'p_' + k) for k in ('buckets', 'n', 'entries', 'tombs') + self.MEMBERS}
        self.st = State()
        st = self.st
        for k in ('st', 'key', 'val'):
            st.g[('hp', k)] = z3.Const('heap_' + k, AII)
        self.DEF = z3.Int('default_value')
        self.keys = []          # key terms of the call
        self.tables = []
        E.hooks['inv_ms'] = 8000
        if tag == 'C11' if also is None else also:
            E.P.also = ({'smt.mbqi': False, 'smt.auto_config': False, 'smt.solve_eqs': False, 'smt.relevancy': 0},)
        E.hooks['inv_quick'] = True
        on = lambda pat, f: E.lib.insert(0, (lambda n, d: bool(re.match(pat, norm(d))), f))
        on(r'V::V\(\)$', self.v_new)
        on(r'V::V\(V const&\)$', self.v_copy)
        on(r'V::operator=\(V const&\)$', self.v_set)
        on(r'V::~V\(\)$', self.v_del)
        self.key_hooks(on)
        E.hooks['free_raw'] = self.free_raw
        E.hooks['allocated'] = self.allocated
        E.hooks['stored'] = self.stored
        E.hooks['copied'] = self.copied
        E.hooks['variants'] = self.variants
        E.cand_gens += [self.c_probe, self.c_rehash, self.c_scan, self.c_copy, self.c_guard]

    def key_hooks(self, on):
        on(r'K::K\(K const&\)$', self.k_copy)
        on(r'K::operator==\(K const&\) const$', self.k_eq)
        on(r'K::~K\(\)$', self.k_del)
        on(r'H::operator\(\)\(K const&\) const$', self.h_call)
        self.E.hooks['malloc'] = self.malloc

    # -- entries
    def raw(self, p, off):
        """entry address of a member pointer into the entry heap"""
        if isinstance(p, Ptr) and p.base is None:
            return (p.off - off).z
        return None

    def hp(self, st, k):
        return st.g[('hp', k)]

    def built(self, st, x, bit, what):
        s = S(self.hp(st, 'st'), x)
        self.E.oblige(st, z3.Or(s == 1 + bit, s == 7), what, 'lifetime')

    def kterm(self, E, st, p):
        x = self.raw(p, self.o['key'])
        if x is not None:
            self.built(st, x, 2, 'the key compared or copied exists')
            return S(self.hp(st, 'key'), x)
        k = st.g.get(('K', p.base, p.off.c if p.off.is_const() else None))
        if k is None:
            E.oblige(st, False, 'the key compared or copied exists')
            return E.fresh_int('nokey')
        return k

    def k_copy(self, E, st, a, I_, dm):
        t = self.kterm(E, st, a[1])
        x = self.raw(a[0], self.o['key'])
        if x is None:
            st.g[('K', a[0].base, a[0].off.c)] = t
            return None
        s = S(self.hp(st, 'st'), x)
        E.oblige(st, z3.Or(s == 1, s == 5), 'a key is constructed once, in allocated storage', 'lifetime')
        st.g[('hp', 'st')] = z3.Store(self.hp(st, 'st'), x, s + 2)
        st.g[('hp', 'key')] = z3.Store(self.hp(st, 'key'), x, t)
        self.placed(E, st, x, t)
        return None

    def placed(self, E, st, x, t):
        for rid in [r for r in st.mem if st.mem[r].alive and self.is_buckets(st, r)]:
            # an entry placed before its key was constructed
            p = S(st.g[('pos', rid)], x)
            if E.P.valid_quick(st, z3.And(0 <= p, p < self.slots(E, rid), S(self.ent(st, rid), p) == x)):
                c = z3.Const(E.sym('kpos'), AII)
                st.assume(c == z3.Store(st.g[('kpos', rid)], t, p))
                st.g[('kpos', rid)] = c

    def k_eq(self, E, st, a, I_, dm):
        return B1(self.kterm(E, st, a[0]) == self.kterm(E, st, a[1]))

    def k_del(self, E, st, a, I_, dm):
        x = self.raw(a[0], self.o['key'])
        if x is None:
            st.g.pop(('K', a[0].base, a[0].off.c), None)
            return None
        s = S(self.hp(st, 'st'), x)
        self.built(st, x, 2, 'the key destroyed exists')
        st.g[('hp', 'st')] = z3.Store(self.hp(st, 'st'), x, s - 2)
        return None

    def vterm(self, E, st, p):
        x = self.raw(p, self.o['value'])
        if x is not None:
            self.built(st, x, 4, 'the value read exists')
            return S(self.hp(st, 'val'), x)
        v = st.g.get(('V', p.base))
        if v is None:
            raise Unsupported('value of unknown origin')
        return v

    def v_put(self, E, st, p, t, ctor):
        x = self.raw(p, self.o['value'])
        if x is None:
            st.g[('V', p.base)] = t
            return
        s = S(self.hp(st, 'st'), x)
        if ctor:
            E.oblige(st, z3.Or(s == 1, s == 3), 'a value is constructed once, in allocated storage', 'lifetime')
            st.g[('hp', 'st')] = z3.Store(self.hp(st, 'st'), x, s + 4)
        else:
            self.built(st, x, 4, 'the value assigned exists')
        st.g[('hp', 'val')] = z3.Store(self.hp(st, 'val'), x, t)

    def v_new(self, E, st, a, I_, dm):
        self.v_put(E, st, a[0], self.DEF, True)

    def v_copy(self, E, st, a, I_, dm):
        self.v_put(E, st, a[0], self.vterm(E, st, a[1]), True)

    def v_set(self, E, st, a, I_, dm):
        self.v_put(E, st, a[0], self.vterm(E, st, a[1]), False)
        return a[0]

    def v_del(self, E, st, a, I_, dm):
        x = self.raw(a[0], self.o['value'])
        if x is None:
            return None
        s = S(self.hp(st, 'st'), x)
        self.built(st, x, 4, 'the value destroyed exists')
        st.g[('hp', 'st')] = z3.Store(self.hp(st, 'st'), x, s - 4)

    def h_call(self, E, st, a, I_, dm):
        t = HASH(self.kterm(E, st, a[1]))
        st.assume(t >= 0, t < 2 ** 32)
        return IV(32, t, 0, 2 ** 32 - 1)

    def malloc(self, E, st, n):
        if not (n.is_const() and n.c == self.sz['Entry']):
            return None
        a = E.fresh_int('entry')
        st.assume(a > 65536, S(self.hp(st, 'st'), a) == 0)
        st.g[('hp', 'st')] = z3.Store(self.hp(st, 'st'), a, 1)
        return Ptr(None, a)

    def free_raw(self, E, st, p, kinds, what):
        x = p.off.z
        E.oblige(st, z3.And(S(self.hp(st, 'st'), x) == 1, z3.BoolVal('malloc' in kinds)), '%s: an entry is released once, after its key and value' % what, 'lifetime')
        st.g[('hp', 'st')] = z3.Store(self.hp(st, 'st'), x, 0)

    # -- bucket arrays
    def slots(self, E, rid):
        return E.regions[rid].size.exact_div(self.sz['Bucket']).z

    def is_buckets(self, st, rid):
        return ('pos', rid) in st.g

    def allocated(self, E, st, p):
        r = E.regions[p.base]
        if not r.size.divisible(self.sz['Bucket']) or (r.size.is_const() and r.init != 'zero'):
            return
        r.stride, r.ty = self.sz['Bucket'], 'arr'
        st.g[('pos', p.base)] = z3.Const(E.sym('pos'), AII)
        st.g[('kpos', p.base)] = z3.Const(E.sym('kpos'), AII)
        n = self.slots(E, p.base)
        if r.init == 'zero':
            a = E.get_arr(st, p.base, self.ek)
            st.assume(LV(a, n) == 0, TB(a, n) == 0)

    def ent(self, st, rid):
        return self.E.get_arr(st, rid, self.ek)

    def hsh(self, st, rid):
        return self.E.get_arr(st, rid, self.hk)

    def stored(self, E, st, r, key, idx, t, old):
        if key != self.ek or not self.is_buckets(st, r.rid):
            return
        n = self.slots(E, r.rid)
        new = self.ent(st, r.rid)
        e2 = z3.Const(E.sym('ent'), AII)
        st.assume(e2 == new)
        E.rs_w(st, r.rid).arrs[self.ek] = e2
        st.assume(f_store(old, n, idx, t, e2), f_range(e2, n))
        ts = z3.simplify(t)
        if z3.is_int_value(ts) and ts.as_long() in (0, 1):
            return
        p, k = st.g[('pos', r.rid)], st.g[('kpos', r.rid)]
        kt = S(self.hp(st, 'key'), t)
        p2, k2 = z3.Store(p, t, idx), z3.Store(k, kt, idx)
        x = S(self.hp(st, 'st'), t)
        if E.P.valid_quick(st, z3.Or(x == 0, x == 1, x == 5)):
            k2 = k
        if not E.P.valid_quick(st, live(t)):
            p2, k2 = z3.If(live(t), p2, p), z3.If(live(t), k2, k)
        for nm, v in (('pos', p2), ('kpos', k2)):
            c = z3.Const(E.sym(nm), AII)
            st.assume(c == v)
            st.g[(nm, r.rid)] = c

    def copied(self, E, st, d, s):
        for k in ('pos', 'kpos'):
            if (k, s) in st.g:
                st.g[(k, d)] = st.g[(k, s)]

    # -- specification functions over a state and a bucket array
    def view(self, st, rid):
        return (self.ent(st, rid), self.hsh(st, rid), self.slots(self.E, rid), st.g[('pos', rid)], st.g[('kpos', rid)])

    def wfA(self, st, rid, i, tombs=True):
        e, h, n, pos, kpos = self.view(st, rid)
        x = S(e, i)
        k = S(self.hp(st, 'key'), x)
        c = [x >= 0, z3.Implies(live(x), z3.And(x > 65536, S(self.hp(st, 'st'), x) == 7, S(h, i) == HASH(k), S(pos, x) == i, S(kpos, k) == i,
                                                home(S(h, i), n) >= 0, home(S(h, i), n) < n, S(h, i) >= 0, S(h, i) < 2 ** 32))]
        if not tombs:
            c.append(x != 1)
        return z3.Implies(z3.And(0 <= i, i < n), z3.And(*c))

    def wfB(self, st, rid, i, j):
        e, h, n, _, _ = self.view(st, rid)
        ho = home(S(h, i), n)
        return z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, live(S(e, i)), S(e, j) == 0), D(ho, j, n) > D(ho, i, n))

    def present(self, st, rid, k):
        e, h, n, pos, kpos = self.view(st, rid)
        i = S(kpos, k)
        return z3.And(0 <= i, i < n, live(S(e, i)), S(self.hp(st, 'key'), S(e, i)) == k)

    def look(self, st, rid, k):
        if rid is None:
            return z3.IntVal(0)
        e, h, n, pos, kpos = self.view(st, rid)
        return z3.If(self.present(st, rid, k), S(e, S(kpos, k)), 0)

    def facts(self, st, rid):
        """instances of the counting lemmas"""
        e, n = self.ent(st, rid), self.slots(self.E, rid)
        st.assume(f_range(e, n), f_empty(e, n), f_full(e, n))

    # -- invariants
    def homes(self, L, n):
        out, seen = [], set()
        for f in L.st0.pc:
            todo = [f]
            while todo:
                x = todo.pop()
                if x.get_id() in seen or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                if (x.decl().name() == 'umod' or x.decl().kind() == z3.Z3_OP_MOD) and x.arg(1).eq(n) and not any(x.eq(y) for y in out):
                    out.append(x)
                todo.extend(x.children())
        return out

    def anchors(self, L, rid):
        """slots a cyclic walk may be measured from"""
        out = list(self.homes(L, self.slots(self.E, rid)))
        for k in self.keys:
            out.append(S(L.st0.g[('kpos', rid)], k))
        return out

    def arrays(self, L):
        return [r for r in sorted(L.st0.mem) if L.st0.mem[r].alive and self.is_buckets(L.st0, r)]

    def cursors(self, L, rid):
        """loop variables that can be a slot number of the array"""
        out = []
        for v in L.vars:
            if v.kind == 'int' or (v.kind == 'ptr' and v.rid == rid):
                try:
                    if v.get(self.E, L.st0, L.env0) is not None:
                        out.append(v)
                except Exception:
                    pass
        return out

    def c_probe(self, E, L):
        out = []
        j = z3.Int('j!pr')
        for rid in self.arrays(L):
            if ('arr', rid, self.ek) in L.M:
                continue
            n = self.slots(E, rid)
            nm = E.regions[rid].name + str(rid) + ': '
            e = self.ent(L.st0, rid)
            if z3.is_const_array(e):
                continue
            home = self.homes(L, n)
            for v in self.cursors(L, rid):
                at = lambda s, en, v=v: v.get(E, s, en).z
                out.append((nm + '%s is a slot' % v.name, lambda E_, s, en, at=at, n=n: z3.And(0 <= at(s, en), at(s, en) < n)))
                out.append((nm + '%s none, or an erased slot' % v.name, lambda E_, s, en, v=v, n=n, e=e: z3.Or(
                    v.stride(E, s, en).z == -1, z3.And(0 <= v.stride(E, s, en).z, v.stride(E, s, en).z < n, S(e, v.stride(E, s, en).z) == 1)) if v.kind == 'int' else None))
                for hi, ho in enumerate(home):
                    for ki, k in enumerate(self.keys):
                        out.append((nm + '%s not past key %d from home %d' % (v.name, ki, hi), lambda E_, s, en, at=at, k=k, ho=ho, n=n, rid=rid: z3.Implies(
                            self.present(s, rid, k), D(ho, at(s, en), n) <= D(ho, S(s.g[('kpos', rid)], k), n))))
                    out.append((nm + '%s not past an empty slot from home %d' % (v.name, hi), lambda E_, s, en, at=at, ho=ho, n=n, e=e: FA(
                        [j], z3.Implies(z3.And(0 <= j, j < n, S(e, j) == 0), D(ho, j, n) >= D(ho, at(s, en), n)), S(e, j))))
                    out.append((nm + '%s not past the empty slot from home %d' % (v.name, hi), lambda E_, s, en, at=at, ho=ho, n=n, e=e: D(ho, EMPTY(e, n), n) >= D(ho, at(s, en), n)))
                    if v.kind == 'int':
                        sg = lambda s, en, v=v: v.stride(E, s, en).z
                        out.append((nm + '%s before every empty slot from home %d' % (v.name, hi), lambda E_, s, en, sg=sg, ho=ho, n=n, e=e: FA(
                            [j], z3.Implies(z3.And(0 <= sg(s, en), sg(s, en) < n, 0 <= j, j < n, S(e, j) == 0), D(ho, j, n) > D(ho, sg(s, en), n)), S(e, j))))
        return out

    def guards(self, L):
        """loop-carried pointers that are an object or null: whether one is set, and was at the start"""
        out = []
        for k, ps in L.alts.items():
            if any(p.base is None for p in ps):
                def on(s, en, k=k):
                    v = en[k[1]] if k[0] == 'phi' else s.mem[k[0]].cells[k[1]][1]
                    return self.E.enc(v).z != 0
                out.append(('%s+%s' % (k[0] if k[0] == 'phi' else self.E.regions[k[0]].name, k[1]), on))
        return out

    def c_guard(self, E, L):
        out = []
        for g, on in self.guards(L):
            try:
                on0 = on(L.st0, L.env0)
            except Exception:
                continue
            out.append(('%s stays unset' % g, lambda E_, s, en, on=on, on0=on0: z3.Implies(z3.Not(on0), z3.Not(on(s, en)))))
            for v in L.vars:
                if v.kind != 'int':
                    continue
                try:
                    v0 = v.get(E, L.st0, L.env0).z
                except Exception:
                    continue
                at = lambda s, en, v=v: v.get(E, s, en).z
                nm = 'while %s is set, %s ' % (g, v.name)
                out.append((nm + 'is kept', lambda E_, s, en, at=at, v0=v0, on=on: z3.Implies(on(s, en), at(s, en) == v0)))
                out.append(('%s unset from the start keeps %s' % (g, v.name), lambda E_, s, en, at=at, v0=v0, on0=on0: z3.Implies(z3.Not(on0), at(s, en) == v0)))
                out.append(('%s and %s unchanged together' % (g, v.name), lambda E_, s, en, at=at, v0=v0, on0=on0, on=on: z3.Implies(at(s, en) == v0, on(s, en) == on0)))
                for rid in self.arrays(L):
                    n, e, h = self.slots(E, rid), self.ent(L.st0, rid), self.hsh(L.st0, rid)
                    out.append((nm + 'is a slot of %d' % rid, lambda E_, s, en, at=at, on=on, n=n: z3.Implies(on(s, en), z3.And(0 <= at(s, en), at(s, en) < n))))
                    for u in self.cursors(L, rid):
                        if u is v or u.kind != 'int':
                            continue
                        for wi, w in enumerate(self.anchors(L, rid)):
                            out.append(('%s counts at most the slots %s passed from anchor %d of %d while %s is set' % (v.name, u.name, wi, rid, g), lambda E_, s, en, at=at, on=on, on0=on0, u=u, w=w, v0=v0, n=n: z3.And(
                                at(s, en) >= v0, at(s, en) - v0 <= n, z3.Implies(z3.And(on0, on(s, en)), at(s, en) - v0 <= D(w, u.get(E, s, en).z, n)))))
                    for ki, k in enumerate(self.keys):
                        out.append((nm + 'has the hash of key %d in %d' % (ki, rid), lambda E_, s, en, at=at, on=on, e=e, h=h, k=k: z3.Implies(
                            on(s, en), z3.And(live(S(e, at(s, en))), S(h, at(s, en)) == HASH(k)))))
        return out

    def variants(self, E, L):
        out = []
        for rid in self.arrays(L):
            n = self.slots(E, rid)
            for g, on in self.guards(L):
                for v in self.cursors(L, rid):
                    at = lambda s, en, v=v: v.get(E, s, en).z
                    for w in self.anchors(L, rid):
                        out.append(('slots until the starting one while %s is set' % g, lambda E_, s, en, at=at, n=n, w=w, on=on: z3.If(on(s, en), n - D(w, at(s, en), n), 0)))
        for rid in self.arrays(L):
            n, e = self.slots(E, rid), self.ent(L.st0, rid)
            for v in self.cursors(L, rid):
                at = lambda s, en, v=v: v.get(E, s, en).z
                for ho in self.homes(L, n):
                    out.append(('slots until an empty one', lambda E_, s, en, at=at, ho=ho, n=n, e=e: D(ho, EMPTY(e, n), n) - D(ho, at(s, en), n)))
                out.append(('slots until the end', lambda E_, s, en, at=at, n=n: n - at(s, en)))
                for w in self.anchors(L, rid):
                    out.append(('slots until the starting one', lambda E_, s, en, at=at, n=n, w=w: n - D(w, at(s, en), n)))
                out.append(('slots until a stored one', lambda E_, s, en, at=at, n=n, e=e: FULL(e, n) - at(s, en)))
        return out

    def c_rehash(self, E, L):
        out = []
        new = [r for r in self.arrays(L) if ('arr', r, self.ek) in L.M]
        old = [r for r in self.arrays(L) if r not in new]
        i, j = z3.Ints('i!rh j!rh')
        for nw in new:
            if E.regions[nw].init != 'zero':
                continue
            n2 = self.slots(E, nw)
            nm = E.regions[nw].name + str(nw) + ': '
            out.append((nm + 'rehashed slots well-formed', lambda E_, s, en, nw=nw: FA([i], self.wfA(s, nw, i, False), S(self.ent(s, nw), i))))
            out.append((nm + 'no gap before a rehashed entry', lambda E_, s, en, nw=nw: FA([i, j], self.wfB(s, nw, i, j), [S(self.ent(s, nw), i), S(self.ent(s, nw), j)])))
            out.append((nm + 'nothing erased in the new array', lambda E_, s, en, nw=nw, n2=n2: TB(self.ent(s, nw), n2) == 0))
            for od in old:
                e, n = self.ent(L.st0, od), self.slots(E, od)
                if z3.is_const_array(e):
                    continue
                for v in self.cursors(L, od):
                    at = lambda s, en, v=v: v.get(E, s, en).z

                    def cnt(E_, s, en, at=at, nw=nw, n2=n2, e=e, n=n):
                        c = at(s, en)
                        s.assume(f_step(e, c - 1), f_step(e, c), f_mono(e, c, n), f_mono(e, c + 1, n), LV(e, 0) == 0)
                        self.facts(s, nw)
                        return LV(self.ent(s, nw), n2) == LV(e, c)
                    out.append((nm + 'as many entries as passed by %s' % v.name, cnt))

                    def kept(E_, s, en, at=at, nw=nw, n2=n2, e=e):
                        x = S(e, i)
                        p = S(s.g[('pos', nw)], x)
                        return FA([i], z3.Implies(z3.And(0 <= i, i < at(s, en), live(x)), z3.And(0 <= p, p < n2, S(self.ent(s, nw), p) == x)), x)
                    out.append((nm + 'entries passed by %s are in the new array' % v.name, kept))

                    def only(E_, s, en, at=at, nw=nw, n2=n2, e=e, od=od):
                        y = S(self.ent(s, nw), j)
                        p = S(s.g[('pos', od)], y)
                        return FA([j], z3.Implies(z3.And(0 <= j, j < n2, live(y)), z3.And(0 <= p, p < at(s, en), S(e, p) == y)), y)
                    out.append((nm + 'the new array has only entries passed by %s' % v.name, only))
        return out

    def c_scan(self, E, L):
        """nothing stored among the slots already passed"""
        out = []
        j = z3.Int('j!sc')
        for rid in self.arrays(L):
            if ('arr', rid, self.ek) in L.M:
                continue
            n, e = self.slots(E, rid), self.ent(L.st0, rid)
            nm = E.regions[rid].name + str(rid) + ': '
            for v in self.cursors(L, rid):
                try:
                    s0 = v.get(E, L.st0, L.env0).z
                except Exception:
                    continue
                at = lambda s, en, v=v: v.get(E, s, en).z
                out.append((nm + 'nothing stored before %s' % v.name, lambda E_, s, en, at=at, e=e, s0=s0: FA(
                    [j], z3.Implies(z3.And(s0 <= j, j < at(s, en)), z3.Not(live(S(e, j)))), S(e, j))))
                out.append((nm + 'nothing stored after the start up to %s' % v.name, lambda E_, s, en, at=at, e=e, s0=s0: FA(
                    [j], z3.Implies(z3.And(s0 < j, j <= at(s, en)), z3.Not(live(S(e, j)))), S(e, j))))
                out.append((nm + 'nothing stored strictly between start and %s' % v.name, lambda E_, s, en, at=at, e=e, s0=s0: FA(
                    [j], z3.Implies(z3.And(s0 < j, j < at(s, en)), z3.Not(live(S(e, j)))), S(e, j))))
                h = self.hsh(L.st0, rid)
                for wi, w in enumerate(self.anchors(L, rid)):
                    d0 = D(w, s0, n)
                    for ki, k in enumerate(self.keys):
                        for strict in (True, False):
                            def walk(E_, s, en, at=at, w=w, n=n, d0=d0, k=k, strict=strict, e=e, h=h):
                                d = D(w, at(s, en), n)
                                dj = D(w, j, n)
                                return z3.And(d >= d0, FA([j], z3.Implies(z3.And(0 <= j, j < n, live(S(e, j)), S(h, j) == HASH(k), d0 < dj, dj < d if strict else dj <= d), z3.BoolVal(False)), S(e, j)))
                            out.append((nm + 'none with hash of key %d %s %s from anchor %d' % (ki, 'before' if strict else 'up to', v.name, wi), walk))
                out.append((nm + '%s not past a stored slot' % v.name, lambda E_, s, en, at=at, e=e, n=n: at(s, en) <= FULL(e, n)))
        return out

    def c_copy(self, E, L):
        """arrays rewritten in place: duplicated entry by entry, or cleared"""
        out = []
        i, x = z3.Ints('i!cp x!cp')
        st0 = L.st0
        H0 = {k: self.hp(st0, k) for k in ('st', 'key', 'val')}
        if ('g', ('hp', 'st')) in L.M:
            def frame(E_, s, en):
                return FA([x], z3.Implies(S(H0['st'], x) != 0, z3.And(*[S(self.hp(s, k), x) == S(H0[k], x) for k in H0])), S(self.hp(s, 'st'), x))
            out.append(('entries that existed before keep lifetime, key and value', frame))
            for k in H0:
                out.append(('heap %s kept' % k, lambda E_, s, en, k=k: self.hp(s, k) == H0[k]))
        for rid in self.arrays(L):
            if ('arr', rid, self.ek) not in L.M:
                continue
            n, e0 = self.slots(E, rid), self.ent(st0, rid)
            if z3.is_const_array(e0):
                continue
            nm = E.regions[rid].name + str(rid) + ': '
            pos0 = st0.g[('pos', rid)]
            now = lambda s, rid=rid: self.ent(s, rid)
            kpos0 = st0.g[('kpos', rid)]
            out.append((nm + 'expected slots kept', lambda E_, s, en, rid=rid, kpos0=kpos0: FA([x], S(s.g[('kpos', rid)], x) == S(kpos0, x), S(s.g[('kpos', rid)], x))))
            out.append((nm + 'counts kept', lambda E_, s, en, now=now, n=n, e0=e0: z3.And(LV(now(s), n) == LV(e0, n), TB(now(s), n) == TB(e0, n))))
            for v in self.cursors(L, rid):
                at = lambda s, en, v=v: v.get(E, s, en).z
                out.append((nm + 'slots from %s on as before' % v.name, lambda E_, s, en, at=at, now=now, e0=e0: FA(
                    [i], z3.Implies(i >= at(s, en), S(now(s), i) == S(e0, i)), S(now(s), i), S(e0, i))))
                out.append((nm + 'dead slots passed by %s as before' % v.name, lambda E_, s, en, at=at, now=now, e0=e0, n=n: FA(
                    [i], z3.Implies(z3.And(0 <= i, i < at(s, en), i < n, z3.Not(live(S(e0, i)))), S(now(s), i) == S(e0, i)), S(now(s), i), S(e0, i))))

                def dup(E_, s, en, at=at, now=now, e0=e0, rid=rid, n=n):
                    y, x0 = S(now(s), i), S(e0, i)
                    return FA([i], z3.Implies(z3.And(0 <= i, i < at(s, en), i < n, live(x0)), z3.And(
                        y > 65536, S(H0['st'], y) == 0, S(self.hp(s, 'st'), y) == 7, S(self.hp(s, 'key'), y) == S(H0['key'], x0), S(self.hp(s, 'val'), y) == S(H0['val'], x0),
                        S(s.g[('pos', rid)], y) == i, S(s.g[('kpos', rid)], S(H0['key'], x0)) == i)), y, x0)
                out.append((nm + 'entries passed by %s duplicated' % v.name, dup))
                out.append((nm + 'slots passed by %s emptied' % v.name, lambda E_, s, en, at=at, now=now, n=n: FA(
                    [i], z3.Implies(z3.And(0 <= i, i < at(s, en), i < n), S(now(s), i) == 0), S(now(s), i))))

                def gone(E_, s, en, at=at, e0=e0, pos0=pos0, n=n):
                    p = S(pos0, x)
                    mine = z3.And(0 <= p, p < at(s, en), p < n, S(e0, p) == x, live(x))
                    return FA([x], S(self.hp(s, 'st'), x) == z3.If(mine, 0, S(H0['st'], x)), S(self.hp(s, 'st'), x))
                out.append((nm + 'exactly the entries passed by %s released' % v.name, gone))
        return out

    # -- inputs
    def key(self, how, T=None):
        """a key argument: its own object, or the key inside a stored entry of T"""
        E, st = self.E, self.st
        if how == 'own':
            i = z3.Int('alias')
            e = self.ent(st, T.rid)
            st.assume(0 <= i, i < T.n, live(S(e, i)))
            st.assume(self.wfA(st, T.rid, i))
            k = S(self.hp(st, 'key'), S(e, i))
            p = Ptr(None, Lin.of(S(e, i)) + self.o['key'])
        else:
            r = E.new_region(st, 'key', 8, None, 'obj', 'sym', False)
            k = z3.Int('k')
            st.g[('K', r.rid, 0)] = k
            p = Ptr(r.rid, 0)
        self.keys.append(k)
        return p, k

    def table(self, nm='t', shape='slots', const=False):
        return Table(self, nm, shape, const)

    def raw_obj(self, sz, nm):
        return Ptr(self.E.new_region(self.st, nm, sz, None, 'obj', 'sym', False).rid, 0)

    def fn(self, name):
        return find(self.m, re.compile(r'^%s\(' % name))


class Table:
    def __init__(self, W, nm, shape, const=False):
        E, st = W.E, W.st
        self.W, self.E, self.name = W, E, nm
        self.obj = E.new_region(st, nm, W.sz['T'], None, 'obj', 'sym', False)
        self.ptr = Ptr(self.obj.rid, 0)
        W.tables.append(self)
        c = st.mem[self.obj.rid].cells
        vt = [n for n in W.m._glines if n.startswith('_ZTV') and W.TABLE in n]
        if len(vt) == 1 and 0 not in [W.o[k] for k in ('buckets', 'n', 'entries', 'tombs')]:
            c[0] = (8, E.global_ptr(st, vt[0]) + 16, PTR)
        if shape == 'null':
            self.rid, self.n = None, z3.IntVal(0)
            self.cnt = self.tbs = z3.IntVal(0)
            data = NULL
        else:
            self.n = z3.Int('slots_' + nm)
            st.assume(self.n >= 1, self.n < MAXN)
            r = E.new_region(st, 'buckets_' + nm, Lin.of(self.n).scale(W.sz['Bucket']), W.sz['Bucket'], 'malloc', 'sym', False, ty='arr')
            r.const = const
            self.rid = r.rid
            st.g[('pos', r.rid)] = z3.Const('pos_' + nm, AII)
            st.g[('kpos', r.rid)] = z3.Const('kpos_' + nm, AII)
            e = self.e = E.init_arr(r, W.ek)
            E.init_arr(r, W.hk)
            i, j = z3.Ints('i!wf j!wf')
            st.assume(FA([i], W.wfA(st, r.rid, i), S(e, i)))
            st.assume(FA([i, j], W.wfB(st, r.rid, i, j), [S(e, i), S(e, j)]))
            self.cnt, self.tbs = LV(e, self.n), TB(e, self.n)
            st.assume(self.cnt + self.tbs < self.n)
            W.facts(st, r.rid)
            st.assume(f_none(e, self.n))
            data = Ptr(r.rid, 0)
        c[W.o['buckets']] = (8, data, PTR)
        i32 = Ty('int', 32)
        for k, v in (('n', self.n), ('entries', self.cnt), ('tombs', self.tbs)):
            c[W.o[k]] = (4, IV(32, v, 0, MAXN), i32)
        self.obj.const = const

    def fields(self, s):
        W, E = self.W, self.E
        return fields(W, s, self.ptr)


def fields(W, s, ptr):
    E = W.E
    p = E.settle(s, E.load(s, Ptr(ptr.base, W.o['buckets']), PTR))
    return (p,) + tuple(E.u(s, E.load(s, Ptr(ptr.base, W.o[k]), Ty('int', 32))).z for k in ('n', 'entries', 'tombs'))


def well_formed(W, s, ptr, what):
    """the representation invariant; returns the bucket array (None for a table without slots)"""
    E = W.E
    p, n, cnt, tbs = fields(W, s, ptr)
    if p.base is None:
        E.oblige(s, z3.And(E.enc(p).z == 0, n == 0, cnt == 0, tbs == 0), '%s: without slots nothing is stored' % what, W.tag)
        return None
    r = E.regions[p.base]
    if not (s.mem[p.base].alive and r.kind == 'malloc' and p.off.is_const() and p.off.c == 0 and W.is_buckets(s, p.base)):
        E.oblige(s, False, '%s: owns its slots' % what, W.tag)
        return None
    nn = W.slots(E, p.base)
    E.oblige(s, z3.And(n == nn, n >= 1), '%s: number of slots' % what, W.tag)
    e = W.ent(s, p.base)
    i, j = E.fresh_int('i_wf'), E.fresh_int('j_wf')
    E.oblige(s.clone(), W.wfA(s, p.base, i), '%s: every slot holds an entry where lookups expect it' % what, W.tag)
    E.oblige(s.clone(), W.wfB(s, p.base, i, j), '%s: no empty slot between an entry and its home' % what, W.tag)
    E.oblige(s, cnt == LV(e, nn), '%s: the entry count is the number of stored keys' % what, W.tag)
    E.oblige(s, tbs == TB(e, nn), '%s: count of erased slots' % what, W.tag)
    E.oblige(s, cnt + tbs < n, '%s: an empty slot remains' % what, W.tag)
    return p.base
