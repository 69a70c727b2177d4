"""C22: the substring filter never rejects an actual substring."""
from eniv.spec import *
from eniv import bits
from eniv.bits import bit

TITLE = 'StringHasher<ES>: characteristic value and filter'
H = '/verif/harness/h_es.cpp'
LEVEL = 'proof'
ASSUMPTIONS = ['ctype functions behave as in the C locale', 'strings shorter than 2^32 bytes']
REPLAY = {'main': 'replay_c22.cpp'}


def klass(c):
    """bit number of byte c, or 28 for a dot, or -1 for a byte without a class"""
    return z3.If(z3.And(c >= 65, c <= 90), c - 65, z3.If(z3.And(c >= 97, c <= 122), c - 97, z3.If(
        c == 95, 26, z3.If(z3.And(c >= 48, c <= 57), 27, z3.If(c == 46, 28, -1)))))


def string_spec(tag, arr):
    """seen(b,i): a byte of class b occurs before position i; dots(i): dots before i"""
    seen = z3.Function('seen_' + tag, I, I, z3.BoolSort())
    dots = z3.Function('dots_' + tag, I, I)

    def step(i):
        c = klass(z3.Select(arr, i))
        return z3.And(dots(i + 1) == dots(i) + z3.If(c == 28, 1, 0),
                      *[seen(b, i + 1) == z3.Or(seen(b, i), c == b) for b in range(28)])
    base = z3.And(dots(z3.IntVal(0)) == 0, *[z3.Not(seen(b, z3.IntVal(0))) for b in range(28)])
    return seen, dots, base, step


def es_post(r, seen, dots, n):
    """the characteristic value of a string of length n"""
    d = dots(n)
    return [('top four bits are min(dots,15)', z3.And(r >= 0, r < 2 ** 32, r / 2 ** 28 == z3.If(d < 15, d, 15)))] + [
        ('bit %d set exactly when a character of its class occurs' % b, bit(r, b) == seen(b, n)) for b in range(28)]


def unit_es(ctx):
    m = build.compile_ir(build.VERIF + '/harness/h_es.cpp')
    E = ctx.engine(m)
    bits.install(E)
    ctx.verified('eni::internal::StringHasher<ES>::operator()(std::string const&) const')
    f = find(m, 'h_es(std::string const&)')
    st = State()
    s = E.new_region(st, 'string', 32, None, 'obj', 'sym', False)
    arr, n = lib.sym_string(E, st, Ptr(s.rid, 0), 'x')
    D = st.g[('s', s.rid, 0)]
    E.regions[D].const = True
    st.assume(n < 2 ** 32)
    seen, dots, base, step = string_spec('x', arr)
    st.assume(base)
    i = z3.Int('i!es')
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), step(i)), patterns=[z3.Select(arr, i)]))
    a = z3.Int('a!dots')
    L0 = Lemma(E, 'dot count is not negative and at most the position')
    L0.have(step(a), dots(a) >= 0, dots(a) <= a)
    L0.show(z3.And(dots(a + 1) >= 0, dots(a + 1) <= a + 1), 'induction step')
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= n), z3.And(dots(i) >= 0, dots(i) <= i)), patterns=[dots(i)]))

    def cands(E, L):
        out = []
        for x in int_vars(L):
            g = x.get
            out.append(('0<=%s<=len' % x.name, lambda E_, s_, e, g=g: z3.And(g(E_, s_, e).z >= 0, g(E_, s_, e).z <= n)))
            for y in int_vars(L):
                if y is x:
                    continue
                h = y.get
                out.append(('%s=min(dots(%s),15)' % (y.name, x.name), lambda E_, s_, e, g=g, h=h: h(E_, s_, e).z == z3.If(
                    dots(g(E_, s_, e).z) < 15, dots(g(E_, s_, e).z), 15)))
                out.append(('%s=dots(%s)' % (y.name, x.name), lambda E_, s_, e, g=g, h=h: h(E_, s_, e).z == dots(g(E_, s_, e).z)))
                out.append(('%s<2^28' % y.name, lambda E_, s_, e, h=h: h(E_, s_, e).z < 2 ** 28))
                if y.w == 32:
                    out.append(('bits of %s seen before %s' % (y.name, x.name), lambda E_, s_, e, g=g, h=h: z3.And(
                        *[bit(h(E_, s_, e), b) == seen(b, g(E_, s_, e).z) for b in range(28)])))
        return out
    E.cand_gens.append(cands)
    outs = E.run(f, [Ptr(s.rid, 0)], st)
    need(E, outs)
    for o in outs:
        if o.kind != 'ret':
            E.oblige(o.st, False, 'the characteristic value is computed without error', 'C22')
            continue
        for nm, fm in es_post(E.u(o.st, o.val).z, seen, dots, n):
            E.oblige(o.st, fm, nm, 'C22')
        E.oblige(o.st, o.st.g[('s', s.rid, 0)] == D and o.st.g[('n', D)].eq(st.g[('n', D)]), 'the string is unchanged', 'frame')


def unit_filter(ctx):
    """may_include(r, s) is true whenever bits 0..27 of r are among those of s and its dot field is not larger"""
    m = build.compile_ir(build.VERIF + '/harness/h_es.cpp')
    E = ctx.engine(m, 'bv')
    ctx.verified('eni::internal::StringHasher<ES>::may_include(unsigned int, unsigned int)')
    f = find(m, 'h_may_include(unsigned int, unsigned int)')
    st = State()
    r, s = z3.BitVec('rule', 32), z3.BitVec('instr', 32)
    outs = E.run(f, [BV(32, r), BV(32, s)], st)
    need(E, outs)
    lo = 2 ** 28 - 1
    for o in outs:
        if o.kind != 'ret':
            E.oblige(o.st, False, 'the filter answers without error', 'C22')
            continue
        v = zbool(E.b1(o.st, o.val))
        ok = z3.And(r & ~s & lo == 0, z3.ULE(z3.LShR(r, 28), z3.LShR(s, 28)))
        E.oblige(o.st, z3.Implies(ok, v), 'no rejection when the characteristic of the rule is covered', 'C22')


def unit_lemma(ctx):
    """substring => characteristic covered (from the contract of ES alone)"""
    E = ctx.engine(build.compile_ir(build.VERIF + '/harness/h_es.cpp'))
    A, R = z3.Array('text', I, I), z3.Array('rule', I, I)
    seenA, dotsA, baseA, stepA = string_spec('t', A)
    seenR, dotsR, baseR, stepR = string_spec('r', R)
    k, o, n, N = z3.Ints('k o n N')
    # induction: what occurs in rule[0..k) occurs in text[0..o+k), and dotsR(k) = dotsA(o+k) - dotsA(o)
    inv = lambda k: z3.And(dotsR(k) == dotsA(o + k) - dotsA(o), *[z3.Implies(seenR(b, k), seenA(b, o + k)) for b in range(28)])
    Lm = Lemma(E, 'substring occurrences (base)')
    Lm.have(baseR)
    Lm.show(inv(z3.IntVal(0)), 'holds for the empty prefix')
    Lm = Lemma(E, 'substring occurrences (step)')
    Lm.have(o >= 0, k >= 0, inv(k), stepR(k), stepA(o + k), z3.Select(R, k) == z3.Select(A, o + k))
    Lm.show(inv(k + 1), 'extends by one byte')
    Lm = Lemma(E, 'monotone')
    mono = lambda a, b: z3.And(dotsA(a) <= dotsA(b), *[z3.Implies(seenA(c, a), seenA(c, b)) for c in range(28)])
    a, b = z3.Ints('a b')
    Lm.have(mono(a, b), stepA(b))
    Lm.show(mono(a, b + 1), 'occurrences only grow')
    Lm = Lemma(E, 'substring is covered')
    er, es = z3.Ints('er es')
    Lm.have(inv(n), mono(o + n, N), mono(z3.IntVal(0), o), baseA)
    for x, sn, dt, ln in ((er, seenR, dotsR, n), (es, seenA, dotsA, N)):
        for _, f in es_post(x, sn, dt, ln):
            Lm.have(f)
    Lm.show(z3.And(er / 2 ** 28 <= es / 2 ** 28, *[z3.Implies(bit(er, c), bit(es, c)) for c in range(28)]), 'bits and dot field of the rule are covered')
    # the value is a function of the characters: two results for the same string agree
    Lm = Lemma(E, 'value determined by the characters')
    bv1, bv2 = z3.BitVecs('v1 v2', 32)
    Lm.have(z3.LShR(bv1, 28) == z3.LShR(bv2, 28), *[z3.Extract(c, c, bv1) == z3.Extract(c, c, bv2) for c in range(28)])
    Lm.show(bv1 == bv2, 'all 32 bits are fixed by the contract')


UNITS = {'StringHasher<ES>::operator()': unit_es, 'StringHasher<ES>::may_include': unit_filter, 'substring lemma': unit_lemma}
