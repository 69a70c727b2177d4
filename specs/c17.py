"""C17: hex encoding and decoding are exact inverses."""
from eniv.spec import *

TITLE = 'eni_crypto::str2hex and hex2str'
SRC = 'tools/eni_crypto/eni_crypto.cpp'
REPLAY = {'main': 'replay_c17.cpp', 'sources': build.glob_sources('tools/eni_crypto/*.cpp') + build.LIBSRC, 'libs': ['-lcrypto']}
ASSUMPTIONS = ['the source and the result are different string objects (every caller in the repository)', 'string lengths below 2^61']


def dig(v):
    """lowercase digit of 0 <= v < 16"""
    return z3.If(v < 10, v + 48, v + 87)


def isdig(c):
    return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 97, c <= 102), z3.And(c >= 65, c <= 70))


def val(c):
    return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))


def enc_at(src, j):
    """character j of the encoding of src"""
    b = z3.Select(src, j / 2)
    return z3.If(j % 2 == 0, dig(b / 16), dig(b % 16))


def dec_at(src, k):
    return 16 * val(z3.Select(src, 2 * k)) + val(z3.Select(src, 2 * k + 1))


def byte_range(arr, n):
    i = z3.Int('i!br')
    return FA([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(arr, i) >= 0, z3.Select(arr, i) < 256)), z3.Select(arr, i))


def content_cands(src, spec, num, den):
    """out[j]==spec(j) below v*num/den, and its length, for every text built in a loop"""
    def cands(E, L):
        out = []
        ds = {}
        for loc in L.M:
            if loc[0] == 'arr' and loc[2] == lib.BYTE:
                ds[loc[1]] = 1
            if loc[0] == 'g' and isinstance(loc[1], tuple) and loc[1][0] == 'n':
                ds[loc[1][1]] = 1
        for D in ds:
            arr = lambda E_, s_, D=D: E_.get_arr(s_, D, lib.BYTE)
            j = z3.Int('j!cc')
            if ('n', D) in L.st0.g:
                out.append(('text %d holds the specified prefix' % D, lambda E_, s_, e, D=D, arr=arr: FA(
                    [j], z3.Implies(z3.And(0 <= j, j < s_.g[('n', D)]), z3.Select(arr(E_, s_), j) == spec(src, j)), z3.Select(arr(E_, s_), j))))
            for v in int_vars(L):
                for sign in (1, -1):
                    e0 = v.get(E, L.st0, L.env0)
                    if e0 is None:
                        continue
                    g = lambda E_, s_, e, v=v, e0=e0, sign=sign: sign * (v.get(E_, s_, e).z - e0.z)
                    if ('n', D) in L.st0.g:
                        for a, b in ((num, den), (1, 1), (1, 2), (2, 1)):
                            out.append(('%d*len %d = %d*%s%s' % (b, D, a, '-' if sign < 0 else '', v.name), lambda E_, s_, e, D=D, g=g, a=a, b=b: b * s_.g[('n', D)] == a * g(E_, s_, e)))
                    if sign > 0:
                        for a, b in ((num, den), (1, 1)):
                            out.append(('text %d specified below %d*%s/%d' % (D, a, v.name, b), lambda E_, s_, e, D=D, arr=arr, g=g, a=a, b=b: FA(
                                [j], z3.Implies(z3.And(0 <= j, b * j < a * g(E_, s_, e)), z3.Select(arr(E_, s_), j) == spec(src, j)), z3.Select(arr(E_, s_), j))))
        for v in int_vars(L):
            e0 = v.get(E, L.st0, L.env0)
            if e0 is not None:
                out.append(('%s moves in steps of 2' % v.name, lambda E_, s_, e, v=v, e0=e0: (v.get(E_, s_, e).z - e0.z) % 2 == 0))
        return out
    return cands


def setup(ctx, fname, tag):
    m = build.compile_ir(SRC)
    E = ctx.engine(m)
    ctx.verified(fname)
    f = find(m, fname)
    st = State()
    s = E.new_region(st, 'source', 32, None, 'obj', 'sym', False)
    d = E.new_region(st, 'result', 32, None, 'obj', 'sym', False)
    arr, n = lib.sym_string(E, st, Ptr(s.rid, 0), tag)
    lib.sym_string(E, st, Ptr(d.rid, 0), 'old')
    st.assume(n < 2 ** 61, byte_range(arr, n))
    D = st.g[('s', s.rid, 0)]
    E.regions[D].const = True
    return E, f, st, s, d, arr, n


def unchanged(E, o, st, s):
    k = ('s', s.rid, 0)
    E.oblige(o.st, o.st.g[k] == st.g[k] and z3.eq(o.st.g[('n', st.g[k])], st.g[('n', st.g[k])]), 'the source text is unchanged', 'frame')


def unit_enc(ctx):
    E, f, st, s, d, arr, n = setup(ctx, 'eni_crypto::str2hex(std::string const&, std::string&)', 'bytes')
    E.cand_gens.append(content_cands(arr, enc_at, 2, 1))
    outs = E.run(f, [Ptr(s.rid, 0), Ptr(d.rid, 0)], st.clone())
    need(E, outs)
    j = z3.Int('j!p')
    for o in outs:
        if o.kind != 'ret':
            E.oblige(o.st, False, 'encoding never fails', 'C17')
            continue
        E.oblige(o.st, E.b1(o.st, o.val), 'encoding succeeds on every text', 'C17')
        p = Ptr(d.rid, 0)
        E.oblige(o.st, lib.slen(E, o.st, p).z == 2 * n, 'two digits per byte', 'C17')
        E.oblige(o.st, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < 2 * n), z3.Select(lib.sarr(E, o.st, p), j) == enc_at(arr, j))),
                 'each byte is encoded by its two lowercase digits, in order', 'C17')
        unchanged(E, o, st, s)


def unit_dec(ctx):
    E, f, st, s, d, arr, n = setup(ctx, 'eni_crypto::hex2str(std::string const&, std::string&)', 'digits')
    E.cand_gens.append(content_cands(arr, dec_at, 1, 2))
    i = z3.Int('i!d')

    def more(E_, L):
        out = []
        for v in int_vars(L):
            out.append(('digits before %s' % v.name, lambda E_, s_, e, v=v: FA([i], z3.Implies(
                z3.And(0 <= i, i < v.get(E_, s_, e).z), isdig(z3.Select(arr, i))), z3.Select(arr, i))))
        return out
    E.cand_gens.append(more)
    outs = E.run(f, [Ptr(s.rid, 0), Ptr(d.rid, 0)], st.clone())
    need(E, outs)
    good = z3.And(n % 2 == 0, FA([i], z3.Implies(z3.And(0 <= i, i < n), isdig(z3.Select(arr, i))), z3.Select(arr, i)))
    for o in outs:
        if o.kind != 'ret':
            E.oblige(o.st, False, 'decoding never fails with an exception', 'C17')
            continue
        r = zbool(E.b1(o.st, o.val))
        E.oblige(o.st, z3.Implies(r, good), 'only even-length digit strings are accepted', 'C17')
        E.oblige(o.st, z3.Implies(good, r), 'every even-length digit string is accepted', 'C17')
        p = Ptr(d.rid, 0)
        E.oblige(o.st, z3.Implies(r, 2 * lib.slen(E, o.st, p).z == n), 'one byte per two digits', 'C17')
        E.oblige(o.st, z3.Implies(r, FA([i], z3.Implies(z3.And(0 <= i, 2 * i < n), z3.Select(lib.sarr(E, o.st, p), i) == dec_at(arr, i)))),
                 'each byte is the value of its two digits, most significant first', 'C17')
        unchanged(E, o, st, s)


def unit_inverse(ctx):
    E = ctx.engine(build.compile_ir(SRC))
    A, B, C = z3.Array('text', I, I), z3.Array('hex', I, I), z3.Array('back', I, I)
    n, k, j = z3.Ints('n k j')
    L = Lemma(E, 'decoding inverts encoding')
    L.have(n >= 0, byte_range(A, n), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < 2 * n), z3.Select(B, j) == enc_at(A, j)), patterns=[z3.Select(B, j)]))
    L.have(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(C, k) == dec_at(B, k)), patterns=[z3.Select(C, k)]))
    L.show(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < 2 * n), isdig(z3.Select(B, j)))), 'an encoding is a digit string')
    L.show(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(C, k) == z3.Select(A, k))), 'byte for byte')


UNITS = {'str2hex': unit_enc, 'hex2str': unit_dec, 'inverse lemma': unit_inverse}
