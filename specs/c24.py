"""C24: to_string yields the decimal text of every fixed-width integer and the
words true and false, over the multiprecision library's own conversion."""
from eniv.spec import *
from eniv import bignum

TITLE = 'to_string of the integer types and Bool'
SRC = 'lib/eni_types.cpp'
REPLAY = {'main': 'replay_c24.cpp', 'sources': [SRC]}
ASSUMPTIONS = ['the multiprecision library converts its integers to their exact decimal text (lexical_cast, str, operator<<), compares and converts them exactly']
TYPES = {'u64': (64, False), 'u128': (128, False), 'u160': (160, False), 'u256': (256, False), 's256': (256, True)}


def unit(name):
    def go(ctx):
        m = build.compile_ir(build.REPO + '/' + SRC)
        E = ctx.engine(m)
        W = bignum.World(E)
        st = State()
        bits, sg = TYPES[name]
        want = 'std::string eni::to_string<N%d%s>(N%d%s)' % (bits, 'us'[sg], bits, 'us'[sg])
        f = next((n for n in m.funcs if bignum.short(demangle(n)) == want), None)
        if f is None:
            raise Unsupported('no instance %s in the library' % want)
        ctx.verified('eni::to_string<%s>' % name)
        v = E.new_region(st, 'value', 40, None, 'obj', 'sym', False)
        s = E.new_region(st, 'result', 32, None, 'obj', 'sym', False)
        x = z3.Int('x')
        lo, hi = bignum.rng(bits, sg)
        st.assume(x >= lo, x <= hi)
        st.g[bignum.key(Ptr(v.rid, 0))] = x
        outs = E.run(f, [Ptr(s.rid, 0), Ptr(v.rid, 0)], st)
        need(E, outs)
        for o in outs:
            if o.kind != 'ret':
                E.oblige(o.st, False, 'conversion to text returns (%s)' % o.kind, 'C24')
                continue
            b, n = W.text(o.st, x)
            text(E, o.st, Ptr(s.rid, 0), b, n, 'the decimal text')
    return go


def text(E, st, p, b, n, what):
    D = st.g.get(lib.skey(E, st, p))
    if D is None:
        E.oblige(st, False, 'a text is returned', 'C24')
        return
    E.oblige(st, lib.slen(E, st, p).z == n.z, 'the length of ' + what, 'C24')
    k = z3.Int('k!p')
    arr = lib.sarr(E, st, p)
    E.oblige(st, FA(k, z3.Implies(z3.And(0 <= k, k < n.z), z3.Select(arr, k) == b.at(Lin.of(k))), z3.Select(arr, k)), 'the characters of ' + what, 'C24')


def unit_bool(ctx):
    m = build.compile_ir(build.REPO + '/' + SRC)
    E = ctx.engine(m)
    st = State()
    ctx.verified('eni::to_string<Bool>')
    s = E.new_region(st, 'result', 32, None, 'obj', 'sym', False)
    x = z3.Bool('x')
    outs = E.run(find(m, re.compile(r'eni::to_string<bool>\(bool\)$')), [Ptr(s.rid, 0), B1(x)], st)
    need(E, outs)
    for o in outs:
        if o.kind != 'ret':
            E.oblige(o.st, False, 'conversion to text returns (%s)' % o.kind, 'C24')
            continue
        n = Lin.of(z3.If(x, z3.IntVal(4), z3.IntVal(5)))
        t = lambda k: z3.If(x, pick(b'true', k), pick(b'false', k))
        text(E, o.st, Ptr(s.rid, 0), lib.Bytes(lambda k: t(Lin.of(k).z)), n, 'the word true or false')


def pick(w, k):
    r = z3.IntVal(0)
    for i, c in enumerate(w):
        r = z3.If(k == i, z3.IntVal(c), r)
    return r


UNITS = {n: unit(n) for n in TYPES}
UNITS['Bool'] = unit_bool
