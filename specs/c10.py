"""C10: iteration visits every entry exactly once; walks of a key's hash."""
from eniv.spec import *
from eniv import htab
from eniv.htab import *

TITLE = 'entry and chain iterators of HashTable, mutable and const, from every position of an arbitrary well-formed table'
REPLAY = {'main': 'replay_c09.cpp', 'sources': build.LIBSRC}
ASSUMPTIONS = ['key copies, comparisons, destructions and hashing behave as such and do not throw', 'fewer than 2^28 slots',
               'iterators are obtained from begin, find and increments, and the table is not changed meanwhile']


def same_object(W, s, p, q, what):
    """two iterators are the same value, byte for byte"""
    E = W.E
    A, B = s.mem[p.base].cells, s.mem[q.base].cells
    E.oblige(s, set((o, c[0]) for o, c in A.items()) == set((o, c[0]) for o, c in B.items()), what + ' (layout)', W.tag)
    for o in sorted(set(A) & set(B)):
        a, b = A[o][1], B[o][1]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            E.oblige(s, E.b1(s, E.pcmp(s, 'eq', a, b)), what, W.tag)
        else:
            E.oblige(s, E.u(s, a).z == E.u(s, b).z, what, W.tag)


def begin_at(ctx, shape, const):
    W = World(ctx, 'C10')
    T = W.table('t', shape)
    return W, T, ('c' if const else '')


def run(W, name, args, s):
    """the outcomes that return; anything else is a failed obligation"""
    out = []
    for o in W.E.run(W.fn(name), args, s):
        if o.kind == 'ret':
            out.append(o)
        else:
            W.E.oblige(o.st, False, '%s returns' % name, W.tag)
    return out


def at_slot(W, s, it, T, c, what, rng, after=None):
    """the iterator stands at the first stored slot of rng, or at the end when there is none.
    rng(j): slots that come into question; lower: order is the slot number"""
    E = W.E
    n = T.n
    e = W.ent(s, T.rid) if T.rid is not None else None
    for o in run(W, 'h_%seq' % c, [it, W.endit], s):
        end = zbool(E.b1(o.st, o.val))
        s1 = o.st.clone()
        s1.assume(end)
        j = E.fresh_int('j')
        if e is not None:
            s1b = s1.clone()
            s1b.assume(rng(j), 0 <= j, j < n)
            E.oblige(s1b, z3.Not(live(S(e, j))), '%s: the end is reached only when no entry remains' % what, W.tag)
        s2 = o.st.clone()
        s2.assume(z3.Not(end))
        if E.P.sat(s2.pc, z3.BoolVal(True), 2000)[0] == z3.unsat:
            if E.P.sat(s1.pc, z3.BoolVal(True), 2000)[0] != z3.unsat:
                same_object(W, s1, it, W.endit, '%s: one representation of the end' % what)
            continue
        if E.P.sat(s1.pc, z3.BoolVal(True), 2000)[0] != z3.unsat:
            same_object(W, s1, it, W.endit, '%s: one representation of the end' % what)
        if T.rid is None:
            E.oblige(s2, False, '%s: a table without slots has no entries' % what, W.tag)
            continue
        for o3 in run(W, 'h_%sderef' % c, [it], s2):
            s3 = o3.st
            x = E.enc(o3.val).z
            p = S(s3.g[('pos', T.rid)], x)
            E.oblige(s3, z3.And(0 <= p, p < n, S(e, p) == x, live(x)), '%s: an entry of the table' % what, W.tag)
            E.oblige(s3, rng(p), '%s: an entry not visited before' % what, W.tag)
            s4 = s3.clone()
            s4.assume(rng(j), 0 <= j, j < p)
            E.oblige(s4, z3.Not(live(S(e, j))), '%s: no entry is skipped' % what, W.tag)
            # the same iterator value as one obtained by looking the key up
            k = S(W.hp(s3, 'key'), x)
            it2 = Ptr(E.new_region(s3, 'it2', W.sz['Iter'], None, 'obj', 'sym', False).rid, 0)
            W.keys.append(k)
            s3.assume(W.wfA(s3, T.rid, p))
            for o4 in run(W, 'h_%sfind' % c, [it2, T.ptr, Ptr(None, Lin.of(x) + W.o['key'])], s3):
                same_object(W, o4.st, it, it2, '%s: the iterator a lookup of its key yields' % what)
            W.keys.pop()


def end_iter(W, T, c, s):
    W.endit = Ptr(W.E.new_region(s, 'end', W.sz['Iter'], None, 'obj', 'sym', False).rid, 0)
    outs = run(W, 'h_%send' % c, [W.endit, T.ptr], s)
    return outs


def begin(shape, const):
    def f(ctx):
        W, T, c = begin_at(ctx, shape, const)
        E = W.E
        it = W.raw_obj(W.sz['Iter'], 'it')
        ctx.verified('HashTable::begin' + (' const' if const else ''), 'HashIterator::operator==')
        for o in end_iter(W, T, c, W.st):
            outs = run(W, 'h_%sbegin' % c, [it, T.ptr], o.st)
            need(E, outs)
            for o2 in outs:
                at_slot(W, o2.st, it, T, c, 'begin', lambda j: j >= 0)
    return f


def snap(W, s, it):
    r = Ptr(W.E.new_region(s, 'before', W.E.regions[it.base].size.c, None, 'obj', 'sym', False).rid, 0)
    W.E.rs_w(s, r.base).cells.update(s.mem[it.base].cells)
    return r


def assigned(shape, const, chain):
    """copying iterators"""
    def f(ctx):
        W, T, c = begin_at(ctx, shape, const)
        E = W.E
        c += 'chain_' if chain else ''
        sz = W.sz['Chain' if chain else 'Iter']
        a, b = W.raw_obj(sz, 'a'), W.raw_obj(sz, 'b')
        p, k = W.key('free', T)
        ctx.verified('HashIterator::operator=')
        mk = (lambda it: ('h_%s' % c[:-1], [it, T.ptr, p])) if chain else (lambda it: ('h_%sfind' % c, [it, T.ptr, p]))
        en = ('h_%send' % c, [a, T.ptr, p] if chain else [a, T.ptr])
        seen = []
        for o in run(W, en[0], en[1], W.st):
            for o1 in run(W, *mk(b), o.st):
                was = snap(W, o1.st, b)
                outs = run(W, 'h_%sset' % c, [a, b], o1.st)
                seen += outs
                for o2 in outs:
                    same_object(W, o2.st, a, was, 'an assigned iterator')
                    same_object(W, o2.st, b, was, 'an iterator assigned from')
                for o2 in run(W, 'h_%sset' % c, [b, b], o1.st.clone()):
                    same_object(W, o2.st, b, was, 'an iterator assigned to itself')
        need(E, seen)
    return f


def post(const):
    """i++: the old position is returned, and ++i happens"""
    def f(ctx):
        W, T, c = begin_at(ctx, 'slots', const)
        E = W.E
        it, old, two = W.raw_obj(W.sz['Iter'], 'it'), W.raw_obj(W.sz['Iter'], 'old'), W.raw_obj(W.sz['Iter'], 'two')
        p, k = W.key('own', T)
        ctx.verified('HashIterator::operator++(int)')
        i = z3.Int('alias')
        seen = []
        for o in end_iter(W, T, c, W.st):
            for o1 in run(W, 'h_%sfind' % c, [it, T.ptr, p], o.st):
                W.keys.pop()
                was = snap(W, o1.st, it)
                outs = run(W, 'h_%spnext' % c, [old, it], o1.st)
                seen += outs
                for o2 in outs:
                    same_object(W, o2.st, old, was, 'i++ yields the old position')
                    at_slot(W, o2.st, it, T, c, 'increment', lambda j: j > i)
                W.keys.append(k)
        need(E, seen)
    return f


def nxt(const):
    def f(ctx):
        W, T, c = begin_at(ctx, 'slots', const)
        E = W.E
        it = W.raw_obj(W.sz['Iter'], 'it')
        p, k = W.key('own', T)
        i = z3.Int('alias')
        ctx.verified('HashIterator::operator++ (entries%s)' % (', const' if const else ''))
        seen = []
        for o in end_iter(W, T, c, W.st):
            for o1 in run(W, 'h_%sfind' % c, [it, T.ptr, p], o.st):
                W.keys.pop()
                outs = run(W, 'h_%snext' % c, [it], o1.st)
                seen += outs
                for o2 in outs:
                    at_slot(W, o2.st, it, T, c, 'increment', lambda j: j > i)
                W.keys.append(k)
        need(E, seen)
    return f


def chain(shape, const, how='free'):
    """the walk of the entries with a key's hash: start"""
    def f(ctx):
        W, T, c = begin_at(ctx, shape, const)
        E = W.E
        it, en = W.raw_obj(W.sz['Chain'], 'it'), W.raw_obj(W.sz['Chain'], 'end')
        p, k = W.key(how, T)
        W.st0 = W.st.clone()
        ctx.verified('HashTable::begin(key)%s' % (' const' if const else ''))
        for o in run(W, 'h_%schain_end' % c, [en, T.ptr, p], W.st.clone()):
            outs = run(W, 'h_%schain' % c, [it, T.ptr, p], o.st)
            need(E, outs)
            for o2 in outs:
                had = W.look(o2.st, T.rid, k)
                for o3 in run(W, 'h_%schain_eq' % c, [it, en], o2.st):
                    end = zbool(E.b1(o3.st, o3.val))
                    E.oblige(o3.st, end == (had == 0), 'the walk is empty exactly for an absent key', W.tag)
                    s3 = o3.st.clone()
                    s3.assume(z3.Not(end))
                    if E.P.sat(s3.pc, z3.BoolVal(True), 2000)[0] == z3.unsat:
                        continue
                    for o4 in run(W, 'h_%schain_deref' % c, [it], s3):
                        E.oblige(o4.st, E.enc(o4.val).z == had, 'the walk starts at the entry with the key', W.tag)
    return f


def chain_next(const):
    """from any position of a walk: the next entry with the hash, cyclically, until the start"""
    def f(ctx):
        W, T, c = begin_at(ctx, 'slots', const)
        E = W.E
        it, en = W.raw_obj(W.sz['Chain'], 'it'), W.raw_obj(W.sz['Chain'], 'end')
        p, k = W.key('own', T)
        start = z3.Int('alias')
        n, e = T.n, T.e
        h = W.hsh(W.st, T.rid)
        ctx.verified('HashIterator::operator++ (chain%s)' % (', const' if const else ''))
        d = lambda x: D(start, x, n)
        for o in run(W, 'h_%schain_end' % c, [en, T.ptr, p], W.st.clone()):
            for o1 in run(W, 'h_%schain' % c, [it, T.ptr, p], o.st):
                s = o1.st
                cells0 = dict(s.mem[it.base].cells)
                # which part of the iterator is the position: the part an increment changes
                E.silent += 1
                moved = set()
                try:
                    for o2 in E.run(W.fn('h_%schain_next' % c), [it], s.clone()):
                        for o3 in E.run(W.fn('h_%schain_eq' % c), [it, en], o2.st.clone()):
                            sx = o3.st
                            sx.assume(z3.Not(zbool(E.b1(sx, o3.val))))
                            if not E.P.feasible(sx, z3.BoolVal(True)):
                                continue
                            for off, cell in o2.st.mem[it.base].cells.items():
                                a, b = cells0.get(off), cell
                                if a is None or isinstance(a[1], Ptr) != isinstance(b[1], Ptr):
                                    moved.add(off)
                                elif isinstance(a[1], IV) and not E.P.valid_quick(sx, E.u(sx, a[1]).z == E.u(sx, b[1]).z):
                                    moved.add(off)
                finally:
                    E.silent -= 1
                if len(moved) != 1:
                    raise Unsupported('position of a chain iterator is not one field (%r)' % (moved,))
                off = moved.pop()
                cur = z3.Int('position')
                s.assume(0 <= cur, cur < n, live(S(e, cur)), S(h, cur) == HASH(k))
                sz, v, ty = cells0[off]
                E.rs_w(s, it.base).cells[off] = (sz, IV(8 * sz, cur, 0, MAXN), ty)
                for o5 in run(W, 'h_%schain_deref' % c, [it], s.clone()):
                    E.oblige(o5.st, E.enc(o5.val).z == S(e, cur), 'the position decides the entry', W.tag)
                W.cur = cur
                outs = run(W, 'h_%schain_next' % c, [it], s)
                need(E, outs)
                j = E.fresh_int('j')
                for o2 in outs:
                    for o3 in run(W, 'h_%schain_eq' % c, [it, en], o2.st):
                        end = zbool(E.b1(o3.st, o3.val))
                        s1 = o3.st.clone()
                        s1.assume(end, 0 <= j, j < n, live(S(e, j)), S(h, j) == HASH(k))
                        E.oblige(s1, d(j) <= d(cur), 'the walk ends only when every entry with the hash was passed', W.tag)
                        s2 = o3.st.clone()
                        s2.assume(z3.Not(end))
                        if E.P.sat(s2.pc, z3.BoolVal(True), 2000)[0] == z3.unsat:
                            continue
                        for o_, cell in cells0.items():
                            if o_ != off:
                                b = s2.mem[it.base].cells[o_][1]
                                E.oblige(s2, E.b1(s2, E.pcmp(s2, 'eq', cell[1], b)) if isinstance(b, Ptr) else E.u(s2, cell[1]).z == E.u(s2, b).z, 'only the position changes', W.tag)
                        c2 = E.u(s2, s2.mem[it.base].cells[off][1]).z
                        E.oblige(s2, z3.And(0 <= c2, c2 < n, live(S(e, c2)), S(h, c2) == HASH(k)), 'the next position holds an entry with the hash', W.tag)
                        E.oblige(s2, d(c2) > d(cur), 'the walk advances', W.tag)
                        s4 = s2.clone()
                        s4.assume(0 <= j, j < n, live(S(e, j)), S(h, j) == HASH(k))
                        E.oblige(s4, z3.Or(d(j) <= d(cur), d(j) >= d(c2)), 'no entry with the hash is skipped', W.tag)
    return f


def count(shape, how):
    def f(ctx):
        W, T, c = begin_at(ctx, shape, False)
        E = W.E
        p, k = W.key(how, T)
        ctx.verified('HashTable::count')
        outs = run(W, 'h_count', [T.ptr, p], W.st)
        need(E, outs)
        for o in outs:
            E.oblige(o.st, (E.u(o.st, o.val).z != 0) == (W.look(o.st, T.rid, k) != 0), 'counting a key yields zero exactly for an absent key', W.tag)
    return f


UNITS = {'lemmas': lemmas}
for const in (False, True):
    t = ', const' if const else ''
    for sh in ('slots', 'null'):
        UNITS['begin (%s%s)' % (sh, t)] = begin(sh, const)
        UNITS['chain (%s%s)' % (sh, t)] = chain(sh, const)
    UNITS['next%s' % t] = nxt(const)
    UNITS['post-increment%s' % t] = post(const)
    for sh in ('slots', 'null'):
        for ch in (False, True):
            UNITS['assign %siterator (%s%s)' % ('chain ' if ch else '', sh, t)] = assigned(sh, const, ch)
    UNITS['chain next%s' % t] = chain_next(const)
for sh in ('slots', 'null'):
    UNITS['count (%s)' % sh] = count(sh, 'free')
