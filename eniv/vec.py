"""Vector<T> at an opaque element type and at int: an arbitrary vector in real
memory, the contract of every operation, and loop invariants about element
arrays.  Used by C07 (contents) and C08 (positions, bounds, errors)."""
import re, z3
from .vals import *
from .exec import *
from . import build, lib, jsonw
from .build import norm, find
from .ir import Ty, PTR
from .spec import *

H = build.VERIF + '/harness/h_vector.cpp'
OOR, LEN, OOM = '_ZTISt12out_of_range', '_ZTISt12length_error', '_ZTISt9bad_alloc'


def elements_cands(key, vals=lambda: []):
    """what a loop has done to the element arrays it writes: cursors, constant fill, copy from another range"""
    def cands(E, L):
        out = []
        k = z3.Int('k!el')
        start = {}
        for v in L.vars:
            if v.kind in ('int', 'ptr'):
                try:
                    start[v.name] = v.get(E, L.st0, L.env0)
                except Exception:
                    pass
        vs = [v for v in L.vars if start.get(v.name) is not None]
        steps = offsets(E, L)
        here = {loc[1] for loc in L.M if loc[0] == 'arr' and loc[2] == key}
        for loc in L.M:
            if loc[0] != 'arr' or loc[2] != key:
                continue
            rid = loc[1]
            A0 = E.get_arr(L.st0, rid, key)
            arr = lambda s, rid=rid: E.get_arr(s, rid, key)
            cur = [v for v in vs if v.kind == 'ptr' and v.rid == rid] or [v for v in vs if v.kind == 'int']
            src = [v for v in vs if v.kind == 'ptr'] or []
            for v, d1 in [(v, 0) for v in cur] + [(v, d) for v in vs if v.kind == 'int' for d in steps]:
                s0 = start[v.name].z + d1
                pos = lambda s, e, v=v, d1=d1: v.get(E, s, e).z + d1
                for fwd in (True, False):
                    rng = (lambda s, e, pos=pos, s0=s0: z3.And(s0 <= k, k < pos(s, e))) if fwd else (lambda s, e, pos=pos, s0=s0: z3.And(pos(s, e) <= k, k < s0))
                    d = '%s%s %s' % (v.name, '' if isinstance(d1, int) else '+%s' % d1, 'up' if fwd else 'down')
                    out.append(('only elements passed by %s changed' % d, lambda E_, s, e, rng=rng, arr=arr, A0=A0: FA(
                        [k], z3.Implies(z3.Not(rng(s, e)), z3.Select(arr(s), k) == z3.Select(A0, k)), z3.Select(arr(s), k))))
                    for i, t in enumerate(vals()):
                        out.append(('elements passed by %s are value %d' % (d, i), lambda E_, s, e, rng=rng, arr=arr, t=t: FA(
                            [k], z3.Implies(rng(s, e), z3.Select(arr(s), k) == t), z3.Select(arr(s), k))))
                    for q in here if v.kind == 'int' and steps else ():
                        B0 = E.get_arr(L.st0, q, key)
                        for d2 in [0] + steps:
                            if not (isinstance(d2, int) and isinstance(d1, int)):
                                out.append(('elements passed by %s are those of %d from %s' % (d, q, d2), lambda E_, s, e, rng=rng, arr=arr, B0=B0, sh=d2 - d1: FA(
                                    [k], z3.Implies(rng(s, e), z3.Select(arr(s), k) == z3.Select(B0, k + sh)), z3.Select(arr(s), k))))
                    for w in src + [x for x in vs if x.kind == 'int' and not src]:
                        rids = [w.rid] if w.kind == 'ptr' else []
                        for q in rids:
                            B0 = E.get_arr(L.st0, q, key)
                            out.append(('elements passed by %s are those of %s' % (d, w.name), lambda E_, s, e, rng=rng, arr=arr, B0=B0, sh=start[w.name].z - s0: FA(
                                [k], z3.Implies(rng(s, e), z3.Select(arr(s), k) == z3.Select(B0, k + sh)), z3.Select(arr(s), k))))
        return out
    return cands


def offsets(E, L):
    """loop-invariant integers added to or subtracted from others inside the loop"""
    out = []
    for b in L.f.loops[L.header]:
        for I_ in L.f.blocks[b]:
            if I_.op in ('add', 'sub') and len(out) < 4:
                for n, a in enumerate(I_.a):
                    if a.k == 'reg' and isinstance(L.env0.get(a.v), IV) and not (I_.op == 'sub' and n == 0):
                        t = E.u(L.st0, L.env0[a.v])
                        if not t.is_const():
                            t = t.z if I_.op == 'add' else -t.z
                            if not any(t.eq(x) for x in out):
                                out.append(t)
    return out


class World:
    def __init__(self, ctx, elt, tag):
        self.ctx, self.elt, self.tag = ctx, elt, tag
        self.m = build.compile_ir(H, ('-DELT_INT',) if elt == 'int' else ())
        E = self.E = ctx.engine(self.m)
        m = self.m
        g = lambda n: m.glob(n)[1].v
        self.S = g('k_T')
        self.sizes = {k: g('k_' + k) for k in ('V', 'It', 'SV', 'IL')}
        self.o = {k: jsonw.probe(m, 'p_' + k) for k in ('data', 'size', 'cap', 'it', 'sv')}
        self.W = 8 if elt == 'opaque' else 4
        self.key = (0, self.W, 'i')
        self.ty = Ty('int', 8 * self.W)
        self.MAX = (2 ** 63 - 1) // self.S
        self.st = State()
        self.DEF = z3.Int('default_element') if elt == 'opaque' else z3.IntVal(0)
        self.values = [self.DEF]
        self.st.assume(self.DEF >= 0, self.DEF < 256 ** self.W)
        self.objs = []
        self.nsz = 0
        self.st.g['oom'] = z3.BoolVal(False)
        E.cand_gens.append(elements_cands(self.key, lambda: self.values))
        on = lambda pat, f: E.lib.insert(0, (lambda n, d: bool(re.match(pat, norm(d))), f))
        T = self.ty

        def copy(E_, s, a, I_, dm):
            E.store(s, a[0], E.load(s, a[1], T), T)
            return a[0] if 'operator=' in dm else None

        def ctor(E_, s, a, I_, dm):
            E.store(s, a[0], IV(8 * self.W, self.DEF), T)
            return None
        on(r'O::O\(O const&\)$', copy)
        on(r'O::operator=\(O const&\)$', copy)
        on(r'O::O\(\)$', ctor)

        def dtor(E_, s, a, I_, dm):
            E.bounds(s, a[0], self.S, 'element destruction')
            return None
        on(r'O::~O\(\)$', dtor)
        E.lib.insert(0, (lambda n, d: n == 'realloc', self.realloc))
        E.hooks['bounds'] = lambda E_, L: [(o.name + '.n', o.n) for o in self.objs] + [('the largest size', z3.IntVal(self.MAX))]

    # trusted: realloc
    def realloc(self, E, st, a, I_, dm):
        p, n = a[0], E.u(st, a[1])
        fail = st.clone()
        fail.g['oom'] = z3.BoolVal(True)
        p = E.settle(st, p)
        if n.divisible(self.S):
            cnt = n.exact_div(self.S)
        else:
            raise Unsupported('reallocation of %s bytes' % n.z)
        E.oblige(st, z3.And(n.z >= 1, n.z < 2 ** 63), 'reallocated size representable', 'alloc')
        r = E.new_region(st, 'data', n, self.S, 'malloc', 'uninit', True, ty='arr')
        if p.base is None:
            E.oblige(st, p.off.z == 0, 'realloc of an unknown pointer')
        else:
            old = E.regions[p.base]
            if not st.mem[p.base].alive:
                E.oblige(st, False, 'realloc of released memory')
                return []
            E.oblige(st, zand(p.off.z == 0, old.kind == 'malloc'), 'realloc of the start of an allocated block')
            A, B = E.get_arr(st, p.base, self.key), E.init_arr(r, self.key)
            k = z3.Int('k!re')
            oc = old.size.exact_div(self.S).z
            st.assume(FA([k], z3.Implies(z3.And(0 <= k, k < oc, k < cnt.z), z3.Select(B, k) == z3.Select(A, k)), z3.Select(B, k)))
            E.rs_w(st, p.base).alive = False
        return [Outcome('ret', st, Ptr(r.rid, 0)), Outcome('ret', fail, NULL)]

    # -- inputs
    def size(self, nm='n'):
        v, x = ivar(self.E, self.st, nm)
        return v, x

    def block(self, nm, n, const=False, kind='malloc'):
        r = self.E.new_region(self.st, nm, Lin.of(n).scale(self.S), self.S, kind, 'sym', False, ty='arr')
        r.const = const
        return r

    def vec(self, nm='v', shape='buffer', const=False):
        return Vec(self, nm, shape, const)

    def raw(self, sz, nm='raw'):
        return Ptr(self.E.new_region(self.st, nm, sz, None, 'obj', 'sym', False).rid, 0)

    def elt_at(self, rid, i):
        return Ptr(rid, Lin.of(i).scale(self.S))

    def element(self, v=None, nm='x'):
        """a reference to an element: of v itself at an arbitrary position, or elsewhere"""
        E, st = self.E, self.st
        if v is not None:
            i = z3.Int('alias')
            st.assume(i >= 0, i < v.n)
            p, t = self.elt_at(v.rid, i), z3.Select(v.A, i)
        else:
            r = E.new_region(st, nm, self.S, None, 'obj', 'sym', False)
            r.const = True
            p = Ptr(r.rid, 0)
            t = E.u(st, E.load(st, p, self.ty)).z
        st.assume(t >= 0, t < 256 ** self.W)
        self.values.append(t)
        return p, t

    def range(self, nm='list'):
        n = z3.Int('n_' + nm)
        self.st.assume(n >= 0, n <= self.MAX)
        r = self.block(nm, n, True)
        B = self.E.init_arr(r, self.key)
        return Ptr(r.rid, 0), self.elt_at(r.rid, n), n, B

    def iter(self, p, nm='it'):
        q = self.raw(self.sizes['It'], nm)
        self.E.store(self.st, Ptr(q.base, self.o['it']), p, PTR)
        return q

    def iter_val(self, st, q):
        return self.E.load(st, Ptr(q.base, self.o['it']), PTR)

    def fn(self, name):
        f = find(self.m, re.compile(r'^%s\(' % name))
        return f

    # -- outcomes
    def call(self, name, args, post, throws=(), need_ret=True):
        """post(st, value) on return; throws: [(exception type, condition)] in the order they are tested"""
        E, st, C8 = self.E, self.st, self.tag == 'C08'
        conds, prev = [], z3.BoolVal(False)
        for ty, c in throws:
            conds.append((ty, z3.And(z3.Not(prev), c)))
            prev = z3.Or(prev, c)
        if not C8:
            st.assume(z3.Not(prev))
        outs = E.run(self.fn(name), args, st)
        if need_ret:
            need(E, outs)
        if C8:
            for ty, c in conds:
                if E.P.sat(st.pc, c, 3000)[0] == z3.unsat:
                    continue
                ok = any(o.kind == 'throw' and E.P.sat(o.st.pc, c, 3000)[0] != z3.unsat for o in outs)
                E.obs.append(Ob(E.unit, 'some execution reports %s' % ty[7:], 'cover', name, ok, 'feasible path' if ok else 'refuted: no path', 0.0))
        for o in outs:
            s = o.st
            if o.kind == 'ret':
                if C8:
                    E.oblige(s, z3.Not(prev), 'invalid positions and sizes are reported', self.tag)
                post(s, o.val)
            elif o.kind == 'throw':
                if E.exc_matches(o.val, OOM):
                    E.oblige(s, s.g['oom'], 'allocation failure is reported only when it happened', self.tag)
                else:
                    hit = [c for ty, c in conds if E.exc_matches(o.val, ty)]
                    E.oblige(s, z3.Or(*hit) if hit else False, 'an error is reported only for an invalid position or size', self.tag)
                if C8:
                    for v in self.objs:
                        v.unchanged(s, 'after a reported error')
            else:
                E.oblige(s, False, 'the operation returns', self.tag)
        return outs


class Vec:
    def __init__(self, W, nm, shape, const):
        E, st = W.E, W.st
        self.W, self.E, self.name = W, E, nm
        self.obj = E.new_region(st, nm, W.sizes['V'], None, 'obj', 'sym', False)
        self.ptr = Ptr(self.obj.rid, 0)
        if shape == 'null':
            self.n, self.cap, self.rid, data = z3.IntVal(0), z3.IntVal(0), None, NULL
            self.A = z3.Const('A_' + nm, z3.ArraySort(I, I))
        else:
            self.n, self.cap = z3.Int('size_' + nm), z3.Int('cap_' + nm)
            st.assume(self.n >= 0, self.n <= self.cap, self.cap <= W.MAX)
            r = W.block('data_' + nm, self.cap)
            r.const = const
            self.rid, data = r.rid, Ptr(r.rid, 0)
            self.A = E.init_arr(r, W.key)
            k = z3.Int('k!b')
            st.assume(FA([k], z3.And(z3.Select(self.A, k) >= 0, z3.Select(self.A, k) < 256 ** W.W), z3.Select(self.A, k)))
        self.data = data
        c = st.mem[self.obj.rid].cells
        c[W.o['data']] = (8, data, PTR)
        c[W.o['size']] = (8, IV(64, self.n, 0, W.MAX), Ty('int', 64))
        c[W.o['cap']] = (8, IV(64, self.cap, 0, W.MAX), Ty('int', 64))
        self.obj.const = const
        W.objs.append(self)

    def at(self, i):
        return z3.Select(self.A, i)

    def fields(self, s):
        return vec_fields(self.W, s, self.ptr)

    def holds(self, s, n, spec, what='the vector'):
        vec_holds(self.W, s, self.ptr, n, spec, what)

    def unchanged(self, s, what=''):
        self.holds(s, self.n, self.at, '%s unchanged %s' % (self.name, what))


def vec_fields(W, s, ptr):
    E = W.E
    p = E.settle(s, E.load(s, Ptr(ptr.base, W.o['data']), PTR))
    n, cap = (E.u(s, E.load(s, Ptr(ptr.base, W.o[k]), Ty('int', 64))).z for k in ('size', 'cap'))
    return p, n, cap


def vec_holds(W, s, ptr, n, spec, what):
    """data-structure invariant and contents: n elements, element k being spec(k)"""
    E = W.E
    p, sz, cap = vec_fields(W, s, ptr)
    E.oblige(s, sz == n, '%s: size' % what, W.tag)
    E.oblige(s, sz <= cap, '%s: capacity is not smaller than size' % what, W.tag)
    E.oblige(s, cap <= W.MAX, '%s: capacity representable' % what, W.tag)
    if p.base is None:
        E.oblige(s, z3.And(E.enc(p).z == 0, cap == 0), '%s: no buffer only for no capacity' % what, W.tag)
        return
    r = E.regions[p.base]
    E.oblige(s, bool(s.mem[p.base].alive and r.kind == 'malloc' and p.off.is_const() and p.off.c == 0), '%s: owns its buffer' % what, W.tag)
    E.oblige(s, r.size.z >= cap * W.S, '%s: the buffer holds the capacity' % what, W.tag)
    A = E.get_arr(s, p.base, W.key)
    k = E.fresh_int('k_el')
    if spec is not None and (W.tag == 'C07' or 'unchanged' in what):
        s2 = s.clone()
        s2.assume(k >= 0, k < n)
        E.oblige(s2, z3.Select(A, k) == spec(k), '%s: every element' % what, W.tag)


def ite(*a):
    """ite(c1, x1, c2, x2, ..., y)"""
    r = a[-1]
    for i in range(len(a) - 3, -1, -2):
        r = z3.If(a[i], a[i + 1], r)
    return r


# ------------------------------------------------------------------ operations
SH = ('buffer', 'null')


def variants(*alias):
    """shapes of the vector and origin of the element argument"""
    return [(s, a) for s in SH for a in (alias or (None,)) if not (s == 'null' and a == 'own')]


def ctor(name):
    def f(W, var):
        E, st = W.E, W.st
        p = W.raw(W.sizes['V'])
        H_ = lambda n, spec: (lambda s, v: vec_holds(W, s, p, n, spec, 'the new vector'))
        big = lambda n: [(LEN, n > W.MAX)]
        if name == 'h_new':
            W.call(name, [p], H_(0, None))
        elif name == 'h_new_n':
            v, n = W.size()
            W.call(name, [p, v], H_(n, (lambda k: W.DEF) if W.elt == 'int' else None), big(n))
        elif name == 'h_new_nv':
            v, n = W.size()
            x, t = W.element()
            W.call(name, [p, v, x], H_(n, lambda k: t), big(n))
        elif name == 'h_new_std':
            a, b, n, B = W.range()
            sv = W.raw(W.sizes['SV'], 'std')
            W.E.regions[sv.base].const = False
            c = st.mem[sv.base].cells
            c[0], c[8], c[16] = (8, a, PTR), (8, b, PTR), (8, b, PTR)
            W.call(name, [p, sv], H_(n, lambda k: z3.Select(B, k)))
        elif name == 'h_new_list':
            a, b, n, B = W.range()
            W.call(name, [p, a, IV(64, n, 0, W.MAX)], H_(n, lambda k: z3.Select(B, k)))
        elif name == 'h_new_copy':
            v = W.vec('source', var[0], True)
            W.call(name, [p, v.ptr], H_(v.n, v.at))
    return f


def op(name):
    def f(W, var):
        E, st = W.E, W.st
        M = W.MAX
        v = W.vec('v', var[0])
        own = v if var[1] == 'own' else None
        i64 = lambda x: IV(64, x, 0, M)
        H_ = lambda n, spec: (lambda s, r: v.holds(s, n, spec))
        same = H_(v.n, v.at)
        big = lambda n: [(LEN, n > M)]
        if name == 'h_delete':
            W.call(name, [v.ptr], lambda s, r: v.rid and E.oblige(s, not s.mem[v.rid].alive, 'the buffer is released', W.tag))
        elif name == 'h_set':
            if var[1] == 'self':
                W.call(name, [v.ptr, v.ptr], same)
            else:
                o = W.vec('o', var[1], True)
                W.call(name, [v.ptr, o.ptr], H_(o.n, o.at))
        elif name in ('h_set_list', 'h_assign_list'):
            a, b, n, B = W.range()
            W.call(name, [v.ptr, a, i64(n)], H_(n, lambda k: z3.Select(B, k)))
        elif name in ('h_size', 'h_capacity', 'h_max_size', 'h_empty'):
            def post(s, r):
                x = z3.If(r.t, 1, 0) if isinstance(r, B1) and not isinstance(r.t, bool) else E.u(s, r).z
                E.oblige(s, x == {'h_size': v.n, 'h_capacity': v.cap, 'h_max_size': z3.IntVal(M), 'h_empty': z3.If(v.n == 0, 1, 0)}[name], 'result', W.tag)
                same(s, r)
            W.call(name, [v.ptr], post)
        elif name == 'h_reserve':
            a, n = W.size()

            def post(s, r):
                same(s, r)
                E.oblige(s, v.fields(s)[2] >= n, 'the requested capacity is available', W.tag)
            W.call(name, [v.ptr, a], post, big(n))
        elif name in ('h_shrink',):
            W.call(name, [v.ptr], same)
        elif name == 'h_clear':
            W.call(name, [v.ptr], H_(0, None))
        elif name == 'h_resize':
            a, n = W.size()
            W.call(name, [v.ptr, a], H_(n, lambda k: ite(k < v.n, v.at(k), W.DEF)), big(n))
        elif name == 'h_resize_v':
            a, n = W.size()
            x, t = W.element(own)
            W.call(name, [v.ptr, a, x], H_(n, lambda k: ite(k < v.n, v.at(k), t)), big(n))
        elif name in ('h_index', 'h_cindex', 'h_at', 'h_cat'):
            a, i = W.size('i')
            bad = [(OOR, i >= v.n)] if 'at' in name else []
            if 'at' not in name:
                st.assume(i < v.n)

            def post(s, r):
                E.oblige(s, E.enc(r).z == E.enc(v.data).z + W.S * i, 'the element at the position', W.tag)
                same(s, r)
            W.call(name, [v.ptr, a], post, bad, need_ret=var[0] == 'buffer')
        elif name in ('h_front', 'h_back', 'h_data'):
            if name != 'h_data':
                st.assume(v.n > 0)

            def post(s, r):
                E.oblige(s, E.enc(r).z == E.enc(v.data).z + (W.S * (v.n - 1) if name == 'h_back' else 0), 'result', W.tag)
                same(s, r)
            W.call(name, [v.ptr], post)
        elif name == 'h_assign_nv':
            a, n = W.size()
            x, t = W.element(own)
            W.call(name, [v.ptr, a, x], H_(n, lambda k: t), big(n))
        elif name == 'h_assign_range':
            a, b, n, B = W.range()
            W.call(name, [v.ptr, W.iter(a, 'first'), W.iter(b, 'last')], H_(n, lambda k: z3.Select(B, k)))
        elif name in ('h_push', 'h_emplace', 'h_emplace0'):
            x, t = W.element(own) if name != 'h_emplace0' else (None, W.DEF)
            W.call(name, [v.ptr] + ([x] if x is not None else []), H_(v.n + 1, lambda k: ite(k < v.n, v.at(k), t)), big(v.n + 1))
        elif name == 'h_pop':
            st.assume(v.n > 0)
            ret = W.raw(W.S, 'result') if W.elt == 'opaque' else None

            def post(s, r):
                x = E.u(s, E.load(s, ret, W.ty) if ret is not None else r).z
                E.oblige(s, x == v.at(v.n - 1), 'the last element is returned', W.tag)
                v.holds(s, v.n - 1, v.at)
            W.call(name, ([ret] if ret is not None else []) + [v.ptr], post)
        elif name.startswith('h_ins'):
            it = '_it' in name
            a, i = W.size('i')
            kind = name[-1] if name[-3:] != '_it' and name != 'h_ins' else ''
            if it:
                st.assume(i <= v.n)
            if kind in ('', 'n'):
                c, n = W.size('count') if kind == 'n' else (None, z3.IntVal(1))
                x, t = W.element(own)
                ins = lambda k: t
                rest = ([c] if c is not None else []) + [x]
            else:
                p, q, n, B = W.range()
                ins = lambda k: z3.Select(B, k)
                rest = [W.iter(p, 'first'), W.iter(q, 'last')] if kind == 'r' else [p, i64(n)]
            spec = lambda k: ite(k < i, v.at(k), k < i + n, ins(k - i), v.at(k - n))
            bad = ([] if it else [(OOR, i > v.n)]) + big(v.n + n)
            ret = W.raw(W.sizes['It'], 'result') if it else None

            def post(s, r):
                v.holds(s, v.n + n, spec)
                if it:
                    E.oblige(s, E.enc(W.iter_val(s, ret)).z == E.enc(v.fields(s)[0]).z + W.S * i, 'the position of the insertion is returned', W.tag)
            pos = W.iter(W.elt_at(v.rid, i) if v.rid else NULL, 'position') if it else a
            W.call(name, ([ret] if it else []) + [v.ptr, pos] + rest, post, bad)
        elif name.startswith('h_era'):
            it = '_it' in name
            rng = name[-1] == 'r'
            a, i = W.size('i')
            b, j = W.size('j') if rng else (None, i + 1)
            if it:
                st.assume(i <= v.n, j <= v.n if rng else True)
            bad = [(OOR, z3.Or(i >= j, j > v.n))]
            spec = lambda k: ite(k < i, v.at(k), v.at(k + j - i))
            ret = W.raw(W.sizes['It'], 'result') if it else None

            def post(s, r):
                v.holds(s, v.n - (j - i), spec)
                if it:
                    E.oblige(s, E.enc(W.iter_val(s, ret)).z == E.enc(v.fields(s)[0]).z + W.S * i, 'the position behind the erased range is returned', W.tag)
            mk = lambda z, nm: W.iter(W.elt_at(v.rid, z) if v.rid else NULL, nm)
            args = [mk(i, 'first')] + ([mk(j, 'last')] if rng else []) if it else [a] + ([b] if rng else [])
            W.call(name, ([ret] if it else []) + [v.ptr] + args, post, bad, need_ret=var[0] == 'buffer')
        elif name == 'h_swap':
            o = W.vec('o', var[1]) if var[1] != 'self' else v

            def post(s, r):
                v.holds(s, o.n, o.at)
                o.holds(s, v.n, v.at, 'the other vector')
            W.call(name, [v.ptr, o.ptr], post)
        elif name in ('h_begin', 'h_end', 'h_cbegin', 'h_cend'):
            ret = W.raw(W.sizes['It'], 'result')

            def post(s, r):
                E.oblige(s, E.enc(W.iter_val(s, ret)).z == E.enc(v.data).z + (W.S * v.n if 'end' in name else 0), 'result', W.tag)
                same(s, r)
            W.call(name, [ret, v.ptr], post)
        else:
            raise KeyError(name)
    return f


def iter_op(name):
    def f(W, var):
        E, st = W.E, W.st
        v = W.vec('v', 'buffer', True)
        i, n = z3.Int('i'), z3.Int('n')
        st.assume(i >= 0, i <= v.n, n >= 0, n <= W.MAX)
        at = lambda z: W.elt_at(v.rid, z)
        q = W.iter(at(i), 'it')
        base = E.enc(v.data).z
        ret = W.raw(W.sizes['It'], 'result')
        val = lambda s, p: E.enc(W.iter_val(s, p)).z
        nn = IV(64, n, 0, W.MAX)
        o = name[2:]

        def it(now, out):
            def post(s, r):
                E.oblige(s, val(s, q) == base + W.S * now, 'the iterator afterwards', W.tag)
                if out is not None:
                    E.oblige(s, val(s, ret) == base + W.S * out, 'the iterator returned', W.tag)
            return post

        def here(z):
            def post(s, r):
                E.oblige(s, E.enc(r).z == base + W.S * z, 'the element designated', W.tag)
            return post
        if o in ('deref', 'arrow'):
            W.call(name, [q], here(i))
        elif o == 'index':
            st.assume(i + n < v.n)
            W.call(name, [q, nn], here(i + n))
        elif o in ('preinc', 'postinc'):
            st.assume(i < v.n)
            W.call(name, [ret, q], it(i + 1, i + 1 if o == 'preinc' else i))
        elif o in ('predec', 'postdec'):
            st.assume(i > 0)
            W.call(name, [ret, q], it(i - 1, i - 1 if o == 'predec' else i))
        elif o in ('addeq', 'add'):
            st.assume(i + n <= v.n)
            W.call(name, [ret, q, nn], it(i + n if o == 'addeq' else i, i + n))
        elif o in ('subeq', 'sub'):
            st.assume(i - n >= 0)
            W.call(name, [ret, q, nn], it(i - n if o == 'subeq' else i, i - n))
        else:
            st.assume(n <= v.n)
            p = W.iter(at(n), 'other')
            if o == 'set':
                W.call(name, [ret, q, p], it(n, n))
            elif o == 'diff':
                W.call(name, [q, p], lambda s, r: E.oblige(s, E.s(s, r).z == i - n, 'distance', W.tag))
            else:
                c = {'lt': i < n, 'gt': i > n, 'le': i <= n, 'ge': i >= n, 'eq': i == n, 'ne': i != n}[o]
                W.call(name, [q, p], lambda s, r: E.oblige(s, r.t == c if isinstance(r, B1) else (E.u(s, r).z == 1) == c, 'comparison', W.tag))
    return f


OWN = ('other', 'own')
TABLE = [(n, ctor(n), [('buffer', None)] + ([('null', None)] if n == 'h_new_copy' else [])) for n in ('h_new', 'h_new_n', 'h_new_nv', 'h_new_std', 'h_new_list', 'h_new_copy')]
for n in ('h_delete', 'h_set_list', 'h_assign_list', 'h_assign_range', 'h_size', 'h_capacity', 'h_max_size', 'h_empty', 'h_reserve', 'h_shrink', 'h_clear', 'h_resize', 'h_at', 'h_cat',
          'h_data', 'h_begin', 'h_end', 'h_cbegin', 'h_cend', 'h_emplace0', 'h_ins_r', 'h_ins_l', 'h_ins_itr', 'h_ins_itl', 'h_era', 'h_era_r', 'h_era_it', 'h_era_itr'):
    TABLE.append((n, op(n), variants()))
for n in ('h_index', 'h_cindex', 'h_front', 'h_back', 'h_pop'):
    TABLE.append((n, op(n), [('buffer', None)]))
for n in ('h_resize_v', 'h_assign_nv', 'h_push', 'h_emplace', 'h_ins', 'h_ins_n', 'h_ins_it', 'h_ins_itn'):
    TABLE.append((n, op(n), variants(*OWN)))
for n in ('h_set', 'h_swap'):
    TABLE.append((n, op(n), [(a, b) for a in SH for b in SH + ('self',)]))
ITER = [('i_' + n, iter_op('i_' + n), [(None, None)]) for n in ('deref', 'arrow', 'preinc', 'postinc', 'predec', 'postdec', 'addeq', 'add', 'subeq', 'sub', 'diff', 'index', 'set', 'lt', 'gt', 'le', 'ge', 'eq', 'ne')]


def units(tag):
    out = {}
    for elt in ('opaque', 'int'):
        for n, f, vs in TABLE:
            def u(ctx, elt=elt, f=f, vs=vs, n=n):
                ctx.verified('Vector<%s>::%s' % ('T' if elt == 'opaque' else 'int', n[2:]))
                for var in vs:
                    f(World(ctx, elt, tag), var)
            out['%s of %s' % (n[2:], elt)] = u

        def ui(ctx, elt=elt):
            for n, f, vs in ITER:
                ctx.verified('PointerIterator<%s>::%s' % ('T' if elt == 'opaque' else 'int', n[2:]))
                f(World(ctx, elt, tag), vs[0])
        out['iterators of %s' % elt] = ui
    return out
