"""C11: copied, assigned, moved, cleared and fresh hash tables."""
from eniv.spec import *
from eniv import htab
from eniv.htab import *

TITLE = 'construction, copy, assignment, move, clear and destruction of HashTable for arbitrary well-formed tables'
REPLAY = {'main': 'replay_c09.cpp', 'sources': build.LIBSRC}
ASSUMPTIONS = ['key and value copies, assignments and destructions behave as such and do not throw', 'malloc and calloc succeed',
               'fewer than 2^28 slots']


def world(ctx):
    W = World(ctx, 'C11')
    W.owner = z3.Const('owner', AII)
    return W


def table(W, nm, shape, who):
    T = W.table(nm, shape)
    T.who = who
    if T.rid is not None:
        i = z3.Int('i!own')
        W.st.assume(FA([i], z3.Implies(z3.And(0 <= i, i < T.n, live(S(T.e, i))), S(W.owner, S(T.e, i)) == who), S(T.e, i)))
        W.st.assume(f_none(T.e, T.n))
    return T


def own(W, s, x):
    """the owner of an entry released, from the tables it can be stored in"""
    for T in W.tables:
        if T.rid is not None:
            p = S(W.st0.g[('pos', T.rid)], x)
            s.assume(z3.Implies(z3.And(0 <= p, p < T.n, live(S(T.e, p))), S(W.owner, S(T.e, p)) == T.who))


def returns(W, name, args, what):
    E = W.E
    W.st0 = W.st.clone()
    outs = E.run(W.fn(name), args, W.st.clone())
    need(E, outs)
    ok = []
    for o in outs:
        if o.kind == 'ret':
            ok.append(o)
        else:
            E.oblige(o.st, False, '%s returns' % what, W.tag)
    return ok


def heap_kept(W, s, cond, what):
    """every entry with cond(x) that exists in the state before keeps lifetime, key and value"""
    E = W.E
    x = E.fresh_int('x')
    s2 = s.clone()
    s2.assume(S(W.hp(W.st0, 'st'), x) != 0, cond(x))
    own(W, s2, x)
    for k in ('st', 'key', 'val'):
        if not W.hp(s, k).eq(W.hp(W.st0, k)):
            E.oblige(s2, S(W.hp(s, k), x) == S(W.hp(W.st0, k), x), '%s (%s)' % (what, k), W.tag)


def contents(W, s, ptr, T, what, own):
    """the table at ptr: well-formed, holds T's old keys with equal values, in entries of its own / in T's entries"""
    E = W.E
    rid = well_formed(W, s, ptr, what)
    E.oblige(s, fields(W, s, ptr)[2] == T.cnt, '%s: same number of keys' % what, W.tag)
    q = E.fresh_int('q')
    a, b = W.look(s, rid, q), W.look(W.st0, T.rid, q)
    sc = s.clone()
    if T.rid is not None:
        j = S(W.st0.g[('kpos', T.rid)], q)
        sc.assume(W.wfA(W.st0, T.rid, j))
    if not own:
        E.oblige(sc, a == b, '%s: the same entries' % what, W.tag)
        return rid
    E.oblige(sc, (a != 0) == (b != 0), '%s: the same keys' % what, W.tag)
    s2 = sc.clone()
    s2.assume(b != 0)
    E.oblige(s2, S(W.hp(s, 'val'), a) == S(W.hp(W.st0, 'val'), b), '%s: equal values' % what, W.tag)
    E.oblige(s2, z3.And(S(W.hp(W.st0, 'st'), a) == 0, S(W.hp(s, 'st'), a) == 7), '%s: entries of its own' % what, W.tag)
    return rid


def kept(W, s, T, what):
    """T is as it was: fields, slots, entries"""
    E = W.E
    rid = well_formed(W, s, T.ptr, what)
    E.oblige(s, fields(W, s, T.ptr)[2] == T.cnt, '%s: same number of keys' % what, W.tag)
    q = E.fresh_int('q')
    b = W.look(W.st0, T.rid, q)
    sc = s.clone()
    if T.rid is not None:
        sc.assume(W.wfA(W.st0, T.rid, S(W.st0.g[('kpos', T.rid)], q)))
    E.oblige(sc, W.look(s, rid, q) == b, '%s: same entries' % what, W.tag)
    s2 = sc.clone()
    s2.assume(b != 0)
    E.oblige(s2, z3.And(S(W.hp(s, 'val'), b) == S(W.hp(W.st0, 'val'), b), S(W.hp(s, 'key'), b) == S(W.hp(W.st0, 'key'), b), S(W.hp(s, 'st'), b) == 7),
             '%s: same keys and values' % what, W.tag)
    return rid


def vacant(W, s, ptr, what):
    E = W.E
    rid = well_formed(W, s, ptr, what)
    E.oblige(s, fields(W, s, ptr)[2] == 0, '%s: no entries' % what, W.tag)
    if rid is not None:
        s.assume(f_none(W.ent(s, rid), W.slots(E, rid)))
    q = E.fresh_int('q')
    E.oblige(s, W.look(s, rid, q) == 0, '%s: no key is found' % what, W.tag)
    return rid


def apart(W, s, a, b):
    """two tables do not share slots"""
    W.E.oblige(s, a is None or a != b, 'the tables share no slots', W.tag)


def new(ctx):
    W = world(ctx)
    E = W.E
    p = W.raw_obj(W.sz['T'], 't')
    v, n = ivar(E, W.st, 'size')
    W.st.assume(n < MAXN)
    ctx.verified('HashTable::HashTable(size)')
    for o in returns(W, 'h_new', [p, v], 'construction'):
        vacant(W, o.st, p, 'a fresh table')
        heap_kept(W, o.st, lambda x: z3.BoolVal(True), 'construction touches no entry')


def copy(shape):
    def f(ctx):
        W = world(ctx)
        T = table(W, 'src', shape, 1)
        p = W.raw_obj(W.sz['T'], 'dst')
        ctx.verified('HashTable::HashTable(const HashTable&)')
        for o in returns(W, 'h_copy', [p, T.ptr], 'copying'):
            a = contents(W, o.st, p, T, 'the copy', True)
            b = kept(W, o.st, T, 'the source')
            apart(W, o.st, a, b)
            heap_kept(W, o.st, lambda x: z3.BoolVal(True), 'existing entries are kept')
    return f


def move(shape):
    def f(ctx):
        W = world(ctx)
        T = table(W, 'src', shape, 1)
        p = W.raw_obj(W.sz['T'], 'dst')
        ctx.verified('HashTable::HashTable(HashTable&&)')
        for o in returns(W, 'h_move', [p, T.ptr], 'moving'):
            a = contents(W, o.st, p, T, 'the moved-to table', False)
            b = vacant(W, o.st, T.ptr, 'the moved-from table')
            apart(W, o.st, a, b)
            heap_kept(W, o.st, lambda x: z3.BoolVal(True), 'entries are kept')
    return f


def assign(to, shape):
    def f(ctx):
        W = world(ctx)
        T = table(W, 'src', shape, 1)
        D_ = table(W, 'dst', to, 2)
        ctx.verified('HashTable::operator=(const HashTable&)')
        for o in returns(W, 'h_assign', [D_.ptr, T.ptr], 'assignment'):
            E = W.E
            E.oblige(o.st, E.b1(o.st, E.pcmp(o.st, 'eq', o.val, D_.ptr)), 'assignment returns the table', W.tag)
            a = contents(W, o.st, D_.ptr, T, 'the assigned table', True)
            b = kept(W, o.st, T, 'the source')
            apart(W, o.st, a, b)
            heap_kept(W, o.st, lambda x: S(W.owner, x) != 2, 'entries of other tables are kept')
    return f


def assign_self(shape, name):
    def f(ctx):
        W = world(ctx)
        T = table(W, 't', shape, 1)
        ctx.verified('HashTable::operator= (self)')
        for o in returns(W, name, [T.ptr, T.ptr], 'self-assignment'):
            E = W.E
            E.oblige(o.st, E.b1(o.st, E.pcmp(o.st, 'eq', o.val, T.ptr)), 'assignment returns the table', W.tag)
            rid = well_formed(W, o.st, T.ptr, 'after self-assignment')
            E.oblige(o.st, fields(W, o.st, T.ptr)[2] == T.cnt, 'self-assignment keeps the number of keys', W.tag)
            q = E.fresh_int('q')
            a, b = W.look(o.st, rid, q), W.look(W.st0, T.rid, q)
            E.oblige(o.st, (a != 0) == (b != 0), 'self-assignment keeps the keys', W.tag)
            E.oblige(o.st, z3.Implies(b != 0, S(W.hp(o.st, 'val'), a) == S(W.hp(W.st0, 'val'), b)), 'self-assignment keeps the values', W.tag)
            heap_kept(W, o.st, lambda x: S(W.owner, x) != 1, 'entries of other tables are kept')
    return f


def move_assign(to, shape):
    def f(ctx):
        W = world(ctx)
        T = table(W, 'src', shape, 1)
        D_ = table(W, 'dst', to, 2)
        ctx.verified('HashTable::operator=(HashTable&&)')
        for o in returns(W, 'h_move_assign', [D_.ptr, T.ptr], 'move assignment'):
            E = W.E
            E.oblige(o.st, E.b1(o.st, E.pcmp(o.st, 'eq', o.val, D_.ptr)), 'assignment returns the table', W.tag)
            a = contents(W, o.st, D_.ptr, T, 'the moved-to table', False)
            b = vacant(W, o.st, T.ptr, 'the moved-from table')
            apart(W, o.st, a, b)
            heap_kept(W, o.st, lambda x: S(W.owner, x) != 2, 'entries of other tables are kept')
    return f


def clear(shape):
    def f(ctx):
        W = world(ctx)
        T = table(W, 't', shape, 1)
        ctx.verified('HashTable::clear')
        for o in returns(W, 'h_clear', [T.ptr], 'clearing'):
            vacant(W, o.st, T.ptr, 'the cleared table')
            heap_kept(W, o.st, lambda x: S(W.owner, x) != 1, 'entries of other tables are kept')
    return f


def delete(shape):
    def f(ctx):
        W = world(ctx)
        T = table(W, 't', shape, 1)
        ctx.verified('HashTable::~HashTable')
        for o in returns(W, 'h_delete', [T.ptr], 'destruction'):
            heap_kept(W, o.st, lambda x: S(W.owner, x) != 1, 'entries of other tables are kept')
    return f


UNITS = {'lemmas': lemmas, 'new': new}
for a in ('slots', 'null'):
    UNITS['copy (%s)' % a] = copy(a)
    UNITS['move (%s)' % a] = move(a)
    for b in ('slots', 'null'):
        UNITS['assign (%s to %s)' % (a, b)] = assign(b, a)
        UNITS['move-assign (%s to %s)' % (a, b)] = move_assign(b, a)
    UNITS['self-assign (%s)' % a] = assign_self(a, 'h_assign')
    UNITS['self-move-assign (%s)' % a] = assign_self(a, 'h_move_assign')
    UNITS['clear (%s)' % a] = clear(a)
    UNITS['delete (%s)' % a] = delete(a)
