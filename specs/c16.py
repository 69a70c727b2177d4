"""C16: the scrypt operation validates, decodes and encodes exactly."""
from eniv.spec import *
from eniv import jsonw
from specs.c17 import isdig, val, enc_at, content_cands

TITLE = 'the life of the scrypt operation'
H = build.VERIF + '/harness/h_scrypt.cpp'
REPLAY = {'main': 'replay_c16.cpp', 'sources': ['tools/eni_scrypt/scrypt.cpp'] + build.LIBSRC, 'libs': ['-lcrypto']}
ASSUMPTIONS = ['scrypt_1024_1_1_256 reads 80 bytes and writes the 32-byte digest (C15)', 'JSON values through their contracts (C05, C07)']


def want_in(src, n, k):
    """byte k of the zero-padded 80-byte input"""
    odd = n % 2
    p = 2 * k - odd
    hi = z3.If(p >= 0, val(z3.Select(src, p)), 0)
    return z3.If(2 * k < n + odd, 16 * hi + val(z3.Select(src, p + 1)), 0)


def hi_digit(src, n, q):
    """value of digit q of the text padded to even length"""
    p = q - n % 2
    return z3.If(p >= 0, val(z3.Select(src, p)), 0)


def buf_cands(src, n):
    def cands(E, L):
        out = []
        ds = {loc[1] for loc in L.M if loc[0] == 'arr' and loc[2] == lib.BYTE}
        j = z3.Int('j!ic')
        for D in ds:
            arr = lambda E_, s_, D=D: E_.get_arr(s_, D, lib.BYTE)
            for v in int_vars(L):
                g = lambda E_, s_, e, v=v: v.get(E_, s_, e).z
                for a, b in ((1, 1), (1, 2), (2, 1)):
                    out.append(('buffer %d decoded below %d*%s/%d' % (D, a, v.name, b), lambda E_, s_, e, arr=arr, g=g, a=a, b=b: FA(
                        [j], z3.Implies(z3.And(0 <= j, b * j < a * g(E_, s_, e)), z3.Select(arr(E_, s_), j) == want_in(src, n, j)), z3.Select(arr(E_, s_), j))))
                    out.append(('buffer %d zero from %d*%s/%d' % (D, a, v.name, b), lambda E_, s_, e, arr=arr, g=g, a=a, b=b: FA(
                        [j], z3.Implies(z3.And(b * j >= a * g(E_, s_, e), j < 80), z3.Select(arr(E_, s_), j) == 0), z3.Select(arr(E_, s_), j))))
                out.append(('buffer %d full bytes decoded at %s' % (D, v.name), lambda E_, s_, e, arr=arr, g=g: FA(
                    [j], z3.Implies(z3.And(0 <= j, 2 * j + 1 < g(E_, s_, e)), z3.Select(arr(E_, s_), j) == want_in(src, n, j)), z3.Select(arr(E_, s_), j))))
                out.append(('buffer %d half decoded at %s' % (D, v.name), lambda E_, s_, e, arr=arr, g=g: z3.Implies(
                    z3.And(g(E_, s_, e) % 2 == 1, g(E_, s_, e) >= 0), z3.Select(arr(E_, s_), g(E_, s_, e) / 2) == hi_digit(src, n, g(E_, s_, e) - 1))))
        for v in int_vars(L):
            out.append(('digits before %s' % v.name, lambda E_, s_, e, v=v: FA([j], z3.Implies(
                z3.And(0 <= j, j < v.get(E_, s_, e).z), isdig(z3.Select(src, j))), z3.Select(src, j))))
            out.append(('%s is even' % v.name, lambda E_, s_, e, v=v: v.get(E_, s_, e).z % 2 == 0))
            out.append(('%s within the decoded bytes' % v.name, lambda E_, s_, e, v=v: 2 * v.get(E_, s_, e).z <= n + 1))
        return out
    return cands


def unit_life(ctx):
    m = build.compile_ir(H)
    E = ctx.engine(m)
    E.unroll_max = 8
    ctx.verified(*['Scrypt::%s' % x for x in ('Scrypt(std::string const&)', 'parse(json::Array const&)', 'gas() const', 'run(json::Array&)', '~Scrypt()')])
    f = find(m, re.compile('h_scrypt\\('))
    st = State()
    jsonw.base_contracts(E)
    A, R = jsonw.Args(E, st), jsonw.Ret(E, st)
    gas = E.new_region(st, 'gas', 8, None, 'obj', 'sym', False)
    t = E.new_region(st, 'text', 32, None, 'obj', 'sym', False)
    lib.sym_string(E, st, Ptr(t.rid, 0), 'text')
    st.g['calls'] = 0
    digest = z3.Array('digest', I, I)
    k = z3.Int('k!in')
    src, n = z3.Array('arg0', I, I), z3.Int('len_arg0')
    st.assume(byte_range(digest, z3.IntVal(32)))
    E.cand_gens.append(buf_cands(src, n))
    E.hooks['bounds'] = lambda E_, L: [('n', n), ('n padded', n + n % 2)]
    E.cand_gens.append(content_cands(digest, enc_at, 2, 1))

    def scrypt(E_, s, a, I_, dm):
        A.string(s, 0)
        E.oblige(s, s.g['calls'] == 0, 'the digest is computed once', 'C16')
        s.g['calls'] += 1
        b = lib.bytes_at(E, s, a[0], Lin.of(80), 'digest input')
        E.oblige(s, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < 80), b.at(Lin.of(k)) == want_in(src, n, k))),
                 'the digits are decoded most significant first into 80 zero-padded bytes', 'C16')
        E.bounds(s, a[1], Lin.of(32), 'digest output')
        lib.bytes_at(E, s, a[1], Lin.of(32))
        base = E.get_arr(s, a[1].base, lib.BYTE)
        scr = z3.Const(E.sym('out'), z3.ArraySort(I, I))
        o = a[1].off.z
        s.assume(FA(k, z3.Select(scr, k) == z3.If(z3.And(o <= k, k < o + 32), z3.Select(digest, k - o), z3.Select(base, k)), z3.Select(scr, k)))
        E.rs_w(s, a[1].base).arrs[lib.BYTE] = scr
        return None
    E.lib.insert(0, (lambda nm, d: norm(d) == 'scrypt_1024_1_1_256(char const*, char*)', scrypt))
    outs = E.run(f, [Ptr(t.rid, 0), Ptr(A.arr.rid, 0), Ptr(gas.rid, 0), Ptr(R.arr.rid, 0)], st)
    need(E, outs)
    seen = set()
    i = z3.Int('i!g')
    good = z3.And(A.is_string(0), n <= 160, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), isdig(z3.Select(src, i)))))
    for o in outs:
        s = o.st
        if o.kind != 'ret':
            E.oblige(s, False, 'the operation ends normally (%s)' % o.kind, 'C16')
            continue
        c = E.s(s, o.val)
        if not c.is_const():
            raise Unsupported('result code')
        seen.add(c.c)
        vals = R.values(s)
        if c.c == 0:
            E.oblige(s, not vals and s.g['calls'] == 0, 'rejected arguments yield nothing', 'C16')
            E.oblige(s, z3.Not(good), 'every string of at most 160 digits is accepted', 'C16')
            continue
        E.oblige(s, good, 'only lists starting with a string of at most 160 digits are accepted', 'C16')
        g = E.u(s, E.load(s, Ptr(gas.rid, 0), Ty('int', 64))).z
        E.oblige(s, g == 10 * ((n + 1) / 2), 'gas is ten per input byte, rounded up', 'C16')
        E.oblige(s, c.c == 2, 'the operation always succeeds', 'C16')
        if c.c != 2:
            continue
        E.oblige(s, s.g['calls'] == 1, 'the digest is computed', 'C16')
        E.oblige(s, len(vals) == 1 and vals[0][0] == 'str', 'exactly one string is returned', 'C16')
        if len(vals) == 1 and vals[0][0] == 'str':
            _, va, vn = vals[0]
            E.oblige(s, vn == 64, 'the result has 64 digits', 'C16')
            E.oblige(s, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < 64), z3.Select(va, k) == enc_at(digest, k))),
                     'the result encodes the digest in order, in lowercase hexadecimal', 'C16')
    for c in (0, 2):
        E.obs.append(Ob(E.unit, 'executions with verdict %d are covered' % c, 'cover', 'cover', c in seen, 'seen' if c in seen else 'refuted: no path', 0.0))


UNITS = {'life of Scrypt': unit_life}
