"""C09: the hash table is a map under every history of operations."""
from eniv.spec import *
from eniv import htab
from eniv.htab import *

TITLE = 'insert, erase, find, count, rehash of HashTable for an arbitrary well-formed table, key, value and hasher'
REPLAY = {'main': 'replay_c09.cpp', 'sources': build.LIBSRC}
ASSUMPTIONS = ['key copies, comparisons, destructions and hashing behave as such and do not throw', 'malloc and calloc succeed',
               'fewer than 2^28 slots']


def same_heap(W, s, but=None):
    E = W.E
    x = E.fresh_int('x')
    s2 = s.clone()
    if but is not None:
        s2.assume(x != but)
    for k, what in (('st', 'lifetimes'), ('key', 'keys'), ('val', 'values')):
        a, b = W.hp(W.st, k), W.hp(s, k)
        if not a.eq(b):
            E.oblige(s2, S(a, x) == S(b, x), 'other entries keep their %s' % what, W.tag)


def same_map(W, s, T, rid, but=None):
    E = W.E
    q = E.fresh_int('q')
    s2 = s.clone()
    if but is not None:
        s2.assume(q != but)
    E.oblige(s2, W.look(s2, rid, q) == W.look(W.st0, T.rid, q), 'every other key keeps its entry' if but is not None else 'every key keeps its entry', W.tag)


def start(ctx, shape, how=None):
    W = World(ctx)
    T = W.table('t', shape)
    if how == 'own':
        p, k = W.key('own', T)
    elif how:
        p, k = W.key('free')
    else:
        p = k = None
    W.st0 = W.st.clone()
    return W, T, p, k


def insert(shape, how):
    def f(ctx):
        W, T, p, k = start(ctx, shape, how)
        E = W.E
        x = W.raw_obj(1, 'exist')
        W.st0 = W.st.clone()
        fn = W.fn('h_insert')
        outs = E.run(fn, [T.ptr, p, x], W.st.clone())
        need(E, outs)
        ctx.verified('HashTable::insert')
        had = W.look(W.st0, T.rid, k)
        for o in outs:
            s = o.st
            if o.kind != 'ret':
                E.oblige(s, False, 'insert returns', W.tag)
                continue
            r = E.enc(o.val).z
            ex = E.u(s, E.load(s, x, Ty('int', 8))).z
            E.oblige(s, ex == z3.If(had != 0, 1, 0), 'insert reports whether the key was present', W.tag)
            rid = well_formed(W, s, T.ptr, 'after insert')
            _, n, cnt, _ = T.fields(s)
            E.oblige(s, cnt == T.cnt + z3.If(had != 0, 0, 1), 'the entry count grows exactly for a new key', W.tag)
            E.oblige(s, W.look(s, rid, k) == r, 'the key is found at the returned entry', W.tag)
            E.oblige(s, z3.Implies(had != 0, r == had), 'a present key returns its entry', W.tag)
            E.oblige(s, z3.Implies(had == 0, z3.And(r > 65536, S(W.hp(W.st0, 'st'), r) == 0)), 'a new key gets an entry of its own', W.tag)
            E.oblige(s, z3.And(S(W.hp(s, 'st'), r) == 7, S(W.hp(s, 'key'), r) == k), 'the returned entry holds the key', W.tag)
            E.oblige(s, z3.Implies(had != 0, S(W.hp(s, 'val'), r) == S(W.hp(W.st0, 'val'), r)), 'the value of a present key is kept', W.tag)
            same_heap(W, s, r)
            same_map(W, s, T, rid, k)
    return f


def erase(shape, how):
    def f(ctx):
        W, T, p, k = start(ctx, shape, how)
        E = W.E
        outs = E.run(W.fn('h_erase'), [T.ptr, p], W.st.clone())
        need(E, outs)
        ctx.verified('HashTable::erase')
        had = W.look(W.st0, T.rid, k)
        for o in outs:
            s = o.st
            if o.kind != 'ret':
                E.oblige(s, False, 'erase returns', W.tag)
                continue
            ok = E.b1(s, o.val)
            E.oblige(s, (zbool(ok)) == (had != 0), 'erase reports whether the key was present', W.tag)
            rid = well_formed(W, s, T.ptr, 'after erase')
            cnt = T.fields(s)[2]
            E.oblige(s, cnt == T.cnt - z3.If(had != 0, 1, 0), 'the entry count shrinks exactly for a present key', W.tag)
            E.oblige(s, W.look(s, rid, k) == 0, 'the key is gone', W.tag)
            E.oblige(s, z3.Implies(had != 0, S(W.hp(s, 'st'), had) == 0), 'its entry is released', W.tag)
            same_heap(W, s, had)
            same_map(W, s, T, rid, k)
    return f


def lookup(name, shape, how):
    def f(ctx):
        W, T, p, k = start(ctx, shape, how)
        E = W.E
        it = W.raw_obj(W.sz['Iter'], 'it')
        outs = E.run(W.fn(name), [it, T.ptr, p], W.st.clone())
        need(E, outs)
        ctx.verified('HashTable::find' + (' const' if 'c' in name else ''))
        had = W.look(W.st0, T.rid, k)
        for o in outs:
            s = o.st
            if o.kind != 'ret':
                E.oblige(s, False, 'find returns', W.tag)
                continue
            unchanged(W, s, T)
            for o2 in E.run(W.fn('h_is_end'), [T.ptr, it], s):
                end = zbool(E.b1(o2.st, o2.val))
                E.oblige(o2.st, end == (had == 0), 'find reaches the end exactly for an absent key', W.tag)
                s3 = o2.st.clone()
                s3.assume(z3.Not(end))
                if E.P.sat(s3.pc, z3.BoolVal(True), 2000)[0] == z3.unsat:
                    continue
                for o3 in E.run(W.fn('h_cderef' if 'c' in name else 'h_deref'), [it], s3):
                    E.oblige(o3.st, E.enc(o3.val).z == had if o3.kind == 'ret' else False, 'find yields the entry of the key', W.tag)
    return f


def unchanged(W, s, T):
    E = W.E
    rid = well_formed(W, s, T.ptr, 'afterwards')
    same_heap(W, s)
    same_map(W, s, T, rid)
    E.oblige(s, T.fields(s)[2] == T.cnt, 'the entry count is kept', W.tag)


def rehash(name, shape):
    def f(ctx):
        W, T, p, k = start(ctx, shape)
        E = W.E
        args = [T.ptr]
        if name == 'h_rehash_to':
            v, n = ivar(E, W.st, 'count')
            W.st.assume(n <= MAXN)
            args.append(v)
        W.st0 = W.st.clone()
        outs = E.run(W.fn(name), args, W.st.clone())
        need(E, outs)
        ctx.verified('HashTable::rehash')
        for o in outs:
            if o.kind != 'ret':
                E.oblige(o.st, False, 'rehash returns', W.tag)
                continue
            unchanged(W, o.st, T)
    return f


def sizes(shape):
    def f(ctx):
        W, T, p, k = start(ctx, shape)
        E = W.E
        ctx.verified('TableImpl::empty', 'TableImpl::numOfEntries')
        for name in ('h_size', 'h_empty'):
            outs = E.run(W.fn(name), [T.ptr], W.st.clone())
            need(E, outs)
            for o in outs:
                if o.kind != 'ret':
                    E.oblige(o.st, False, '%s returns' % name, W.tag)
                elif name == 'h_size':
                    E.oblige(o.st, E.u(o.st, o.val).z == T.cnt, 'the entry count is the number of stored keys', W.tag)
                else:
                    E.oblige(o.st, zbool(E.b1(o.st, o.val)) == (T.cnt == 0), 'empty exactly without stored keys', W.tag)
                unchanged(W, o.st, T)
    return f


UNITS = {'lemmas': lemmas}
for sh in ('slots', 'null'):
    for how in ('free', 'own'):
        if sh == 'null' and how == 'own':
            continue
        t = '%s, %s' % (sh, {'free': 'any key', 'own': 'key inside an entry'}[how])
        UNITS['insert (%s)' % t] = insert(sh, how)
        UNITS['erase (%s)' % t] = erase(sh, how)
        UNITS['find (%s)' % t] = lookup('h_find', sh, how)
        UNITS['find const (%s)' % t] = lookup('h_cfind', sh, how)
    UNITS['size and empty (%s)' % sh] = sizes(sh)
    UNITS['rehash (%s)' % sh] = rehash('h_rehash', sh)
    UNITS['rehash to (%s)' % sh] = rehash('h_rehash_to', sh)
