"""C18: RSA operations pass exact buffers and reject what does not fit."""
from eniv.spec import *
from eniv import jsonw
from specs.c17 import isdig, dec_at, enc_at

TITLE = 'eni_crypto::rsa::* and the life of RSAEncrypt / RSADecrypt'
H = build.VERIF + '/harness/h_rsa.cpp'
REPLAY = {'main': 'replay_c18.cpp', 'sources': build.LIBSRC, 'libs': ['-lcrypto']}
ASSUMPTIONS = [
    'OpenSSL contracts: RSA_size is a positive constant of the key (below 2^20); the four transforms read flen bytes, write at '
    'most RSA_size bytes and return their number or -1; PEM_read_bio_* and BIO_new_mem_buf return null or a fresh handle',
    'message lengths below 2^31; str2hex and hex2str through their contracts (C17); JSON values through theirs (C05, C07)']
NOPAD = 3


class Str2Hex:
    """contract proved under C17"""
    def apply(self, E, st, a):
        src, n = lib.sarr(E, st, a[0]), lib.slen(E, st, a[0])
        st.assume(byte_range(src, n.z))
        out = z3.Const(E.sym('hex'), z3.ArraySort(I, I))
        j = z3.Int('j!h')
        st.assume(FA(j, z3.Implies(z3.And(0 <= j, j < 2 * n.z), z3.Select(out, j) == enc_at(src, j)), z3.Select(out, j)))
        lib.set_content(E, st, a[1], out, n.scale(2))
        return B1(True)


class Hex2Str:
    """contract proved under C17"""
    def apply(self, E, st, a):
        src, n = lib.sarr(E, st, a[0]), lib.slen(E, st, a[0]).z
        st.assume(byte_range(src, n))
        i = z3.Int('i!h')
        good = z3.And(n % 2 == 0, FA(i, z3.Implies(z3.And(0 <= i, i < n), isdig(z3.Select(src, i))), z3.Select(src, i)))
        bad = st.clone()
        w = E.fresh_int('baddigit')
        bad.assume(z3.Or(n % 2 == 1, z3.And(0 <= w, w < n, z3.Not(isdig(z3.Select(src, w))))))
        junk = z3.Const(E.sym('junk'), z3.ArraySort(I, I))
        jn = E.fresh_int('junklen')
        bad.assume(jn >= 0, jn < lib.MAXLEN)
        lib.set_content(E, bad, a[1], junk, jn)
        st.assume(good)
        out = z3.Const(E.sym('unhex'), z3.ArraySort(I, I))
        st.assume(FA(i, z3.Implies(z3.And(0 <= i, 2 * i < n), z3.And(z3.Select(out, i) == dec_at(src, i), z3.Select(out, i) >= 0, z3.Select(out, i) < 256)), z3.Select(out, i)))
        h = E.fresh_int('half')
        st.assume(2 * h == n)
        lib.set_content(E, st, a[1], out, h)
        return [Outcome('ret', st, B1(True)), Outcome('ret', bad, B1(False))]


class World:
    """the OpenSSL side: what it is asked to do and what it answers"""

    def __init__(self, E, st, key, want_fn, check_block):
        self.E, self.key = E, key
        self.size = z3.Int('rsa_size')
        st.assume(self.size >= 1, self.size < 2 ** 20)
        self.out = z3.Array('rsa_output', I, I)
        self.len = z3.Int('rsa_output_len')
        self.want_fn, self.check_block = want_fn, check_block
        st.g['calls'] = ()
        H = lambda nm, f: E.lib.insert(0, (lambda n, d: n == nm, f))
        H('RSA_size', self.rsa_size)
        for fn in ('RSA_public_encrypt', 'RSA_private_encrypt', 'RSA_public_decrypt', 'RSA_private_decrypt'):
            H(fn, lambda E_, s, a, I_, dm, fn=fn: self.transform(fn, s, a))
        H('strnlen', self.strnlen)
        H('RSA_free', self.rsa_free)
        H('BIO_free', lambda E_, s, a, I_, dm: IV(32, 1))
        H('BIO_free_all', lambda E_, s, a, I_, dm: None)
        E.contracts['eni_crypto::str2hex(std::string const&, std::string&)'] = Str2Hex()
        E.contracts['eni_crypto::hex2str(std::string const&, std::string&)'] = Hex2Str()
        for k in list(E.contracts):
            E.contracts[k.replace('std::string', build.STR)] = E.contracts[k]

    def is_key(self, s, p, what):
        self.E.oblige(s, isinstance(p, Ptr) and self.E.enc(p).z == self.key, '%s is given the key' % what, 'C18')

    def rsa_size(self, E, s, a, I_, dm):
        self.is_key(s, a[0], 'RSA_size')
        return IV(32, self.size, 0, 2 ** 20)

    def rsa_free(self, E, s, a, I_, dm):
        p = E.enc(a[0])
        if p.is_const() and p.c == 0:
            return None
        E.oblige(s, z3.Or(p.z == 0, p.z == self.key), 'only the key of the operation is released', 'C18')
        E.oblige(s, 'free' not in s.g['calls'], 'the key is released at most once', 'C18')
        s.g['calls'] = s.g['calls'] + ('free',)
        return None

    def transform(self, fn, s, a):
        E = self.E
        E.oblige(s, fn == self.want_fn, 'the library transform used is %s (used: %s)' % (self.want_fn, fn), 'C18')
        E.oblige(s, not any(c in ('ok', 'failed', 'free') for c in s.g['calls']), 'the library is asked once, while the key is alive', 'C18')
        self.is_key(s, a[3], fn)
        pad = E.s(s, a[4])
        E.oblige(s, pad.z == NOPAD, 'no padding is requested', 'C18')
        flen = E.s(s, a[0])
        E.oblige(s, flen.z >= 0, 'the input length is not negative', 'C18')
        b = lib.bytes_at(E, s, a[1], flen, 'library read')
        self.check_block(s, b, flen.z)
        E.bounds(s, a[2], Lin.of(self.size), 'library write (up to the key size)')
        bad = s.clone()
        bad.g['calls'] = bad.g['calls'] + ('failed',)
        s.g['calls'] = s.g['calls'] + ('ok',)
        s.assume(self.len >= 0, self.len <= self.size)
        for x in (bad, s):
            scr = z3.Const(E.sym('written'), z3.ArraySort(I, I))
            old = lib.bytes_at(E, x, a[2], Lin.of(self.size))
            k = z3.Int('k!w')
            base = E.get_arr(x, a[2].base, lib.BYTE)
            q = k - a[2].off.z
            if x is s:
                x.assume(FA(k, z3.Implies(z3.And(0 <= k, k < self.len), z3.And(z3.Select(self.out, k) >= 0, z3.Select(self.out, k) < 256)), z3.Select(self.out, k)))
                x.assume(FA(k, z3.Implies(z3.And(q >= 0, q < self.len), z3.Select(scr, k) == z3.Select(self.out, q)), z3.Select(scr, k)))
            x.assume(FA(k, z3.Implies(z3.Or(q < 0, q >= self.size), z3.Select(scr, k) == z3.Select(base, k)), z3.Select(scr, k)))
            E.rs_w(x, a[2].base).arrs[lib.BYTE] = scr
        return [Outcome('ret', s, IV(32, self.len, 0, 2 ** 20)), Outcome('ret', bad, IV(32, -1))]

    def strnlen(self, E, s, a, I_, dm):
        mx = E.u(s, a[1])
        r = E.fresh_int('strnlen')
        # reads up to and including the first NUL, never beyond the limit
        p = a[0]
        base = lib.bytes_at(E, s, p, 0)
        k = z3.Int('k!sn')
        reg = E.regions[p.base]
        if not reg.stride:
            reg.stride = 1
        if E.cellmode(s, reg):
            E.to_arrays(s, reg)
        arr = E.get_arr(s, p.base, lib.BYTE)
        s.assume(r >= 0, r <= mx.z, z3.Or(r == mx.z, z3.Select(arr, p.off.z + r) == 0),
                 FA(k, z3.Implies(z3.And(p.off.z <= k, k < p.off.z + r), z3.Select(arr, k) != 0), z3.Select(arr, k)))
        E.bounds(s, p, Lin.of(z3.If(r == mx.z, r, r + 1)), 'strnlen read')
        return IV(64, r, 0, 2 ** 63)


def expect_encrypt(W, msg, n):
    """the block is key-sized: the message padded with zero bytes"""
    def check(s, b, flen):
        E = W.E
        E.oblige(s, flen == W.size, 'exactly one key-sized block is handed over', 'C18')
        k = z3.Int('k!blk')
        E.oblige(s, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < W.size), b.at(Lin.of(k)) == z3.If(k < n, z3.Select(msg, k), 0))),
                 'the block is the message padded with zero bytes', 'C18')
    return check


def expect_decrypt(W, at, n):
    def check(s, b, flen):
        E = W.E
        k = z3.Int('k!blk')
        E.oblige(s, flen == n, 'exactly the given bytes are handed over (length)', 'C18')
        E.oblige(s, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), b.at(Lin.of(k)) == at(k))), 'exactly the given bytes are handed over', 'C18')
    return check


def z0(W):
    """position of the first zero byte of the library output, or its length"""
    z = z3.Int('first_zero')
    k = z3.Int('k!z0')
    return z, z3.And(z >= 0, z <= W.len, z3.Or(z == W.len, z3.Select(W.out, z) == 0),
                     z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < z), z3.Select(W.out, k) != 0), patterns=[z3.Select(W.out, k)]))


def same_text(E, s, arr, n, want, wn, what):
    k = z3.Int('k!st')
    E.oblige(s, n == wn, what + ' (length)', 'C18')
    E.oblige(s, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < wn), z3.Select(arr, k) == want(k))), what, 'C18')


def unit_helper(ctx, fn, encrypt, libfn):
    m = build.compile_ir('tools/eni_crypto/eni_crypto.cpp')
    E = ctx.engine(m)
    name = 'eni_crypto::rsa::%s(rsa_st&, std::string const&, std::string&)' % fn
    ctx.verified(name)
    f = find(m, name)
    st = State()
    key = z3.Int('key')
    st.assume(key > 4096)
    ms = E.new_region(st, 'message', 32, None, 'obj', 'sym', False)
    rs = E.new_region(st, 'result', 32, None, 'obj', 'sym', False)
    msg, n = lib.sym_string(E, st, Ptr(ms.rid, 0), 'msg')
    lib.sym_string(E, st, Ptr(rs.rid, 0), 'old')
    E.regions[st.g[('s', ms.rid, 0)]].const = True
    st.assume(n < 2 ** 31, byte_range(msg, n))
    W = World(E, st, key, libfn, None)
    W.check_block = expect_encrypt(W, msg, n) if encrypt else expect_decrypt(W, lambda k: z3.Select(msg, k), n)
    outs = E.run(f, [Ptr(None, key), Ptr(ms.rid, 0), Ptr(rs.rid, 0)], st)
    need(E, outs)
    seen = set()
    for o in outs:
        s = o.st
        if o.kind != 'ret':
            E.oblige(s, False, '%s never throws' % fn, 'C18')
            continue
        r = zbool(E.b1(s, o.val))
        c = s.g['calls'][-1] if s.g['calls'] else 'none'
        seen.add(c)
        if c == 'none':
            E.oblige(s, z3.Not(r), 'no result without the library', 'C18')
            E.oblige(s, n > W.size if encrypt else False, 'only messages longer than the key are refused before the library is asked', 'C18')
        elif c == 'failed':
            E.oblige(s, z3.Not(r), 'failure of the library yields no result', 'C18')
        else:
            E.oblige(s, r, 'success of the library yields a result', 'C18')
            p = Ptr(rs.rid, 0)
            if encrypt:
                same_text(E, s, lib.sarr(E, s, p), lib.slen(E, s, p).z, lambda k: z3.Select(W.out, k), W.len, "the library's whole output is returned")
            else:
                z, fz = z0(W)
                s.assume(fz)
                same_text(E, s, lib.sarr(E, s, p), lib.slen(E, s, p).z, lambda k: z3.Select(W.out, k), z, "the library's output up to its first zero byte is returned")
    for c in ('failed', 'ok') + (('none',) if encrypt else ()):
        E.obs.append(Ob(E.unit, 'executions of kind %s are covered' % c, 'cover', 'cover', c in seen, 'seen' if c in seen else 'refuted: no path', 0.0))


def unit_life(ctx, encrypt):
    m = build.compile_ir(H)
    E = ctx.engine(m)
    cls = 'RSAEncrypt' if encrypt else 'RSADecrypt'
    ctx.verified(*['eni_crypto::%s::%s' % (cls, x) for x in ('parse(json::Array const&)', 'gas() const', 'run(json::Array&)', '~%s()' % cls)],
                 'eni_crypto::rsa::create_%skey' % ('pub' if encrypt else 'priv'), 'eni_crypto::rsa::destroy')
    f = find(m, re.compile('h_%s\\(' % ('encrypt' if encrypt else 'decrypt')))
    st = State()
    jsonw.base_contracts(E)
    A, R = jsonw.Args(E, st), jsonw.Ret(E, st)
    st.assume(z3.Int('len_arg1') < 2 ** 31)
    gas = E.new_region(st, 'gas', 8, None, 'obj', 'sym', False)
    t = E.new_region(st, 'text', 32, None, 'obj', 'sym', False)
    lib.sym_string(E, st, Ptr(t.rid, 0), 'text')
    key = z3.Int('key')
    st.assume(key > 4096)
    W = World(E, st, key, 'RSA_public_encrypt' if encrypt else 'RSA_private_decrypt', None)
    bio = z3.Int('bio')
    half = z3.Int('msglen')

    def block(s, b, flen):
        arr, n = A.string(s, 1)
        if encrypt:
            expect_encrypt(W, arr, n)(s, b, flen)
        else:
            E.oblige(s, 2 * flen == n, 'exactly the decoded bytes are handed over (length)', 'C18')
            k = z3.Int('k!blk')
            E.oblige(s, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < flen), b.at(Lin.of(k)) == dec_at(arr, k))), 'exactly the decoded bytes are handed over', 'C18')
    W.check_block = block

    def bio_new(E_, s, a, I_, dm):
        arr, n = A.string(s, 0)
        E.oblige(s, A.is_string(0), 'the key text is the first argument', 'C18')
        ln = E.s(s, a[1])
        b = lib.bytes_at(E, s, a[0], Lin.of(n) + 1)
        k = z3.Int('k!pem')
        E.oblige(s, z3.Or(ln.z < 0, ln.z == n), 'the whole key text is read', 'C18')
        E.oblige(s, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= n), b.at(Lin.of(k)) == z3.Select(arr, k))), 'the key text is the first argument', 'C18')
        s2 = s.clone()
        s2.g['calls'] = s2.g['calls'] + ('nobio',)
        s.assume(bio > 4096)
        return [Outcome('ret', s, Ptr(None, bio)), Outcome('ret', s2, NULL)]

    def pem(E_, s, a, I_, dm):
        E.oblige(s, dm == ('PEM_read_bio_RSA_PUBKEY' if encrypt else 'PEM_read_bio_RSAPrivateKey'), 'the key is read as a %s key' % ('public' if encrypt else 'private'), 'C18')
        E.oblige(s, E.enc(a[0]).z == bio, 'the key is read from the key text', 'C18')
        E.oblige(s, 'key' not in s.g['calls'] and 'nokey' not in s.g['calls'], 'the key is read once', 'C18')
        s2 = s.clone()
        s2.g['calls'] = s2.g['calls'] + ('nokey',)
        s.g['calls'] = s.g['calls'] + ('key',)
        return [Outcome('ret', s, Ptr(None, key)), Outcome('ret', s2, NULL)]
    E.lib.insert(0, (lambda n, d: n == 'BIO_new_mem_buf', bio_new))
    E.lib.insert(0, (lambda n, d: n.startswith('PEM_read_bio_'), pem))
    outs = E.run(f, [Ptr(t.rid, 0), Ptr(A.arr.rid, 0), Ptr(gas.rid, 0), Ptr(R.arr.rid, 0)], st)
    need(E, outs)
    seen = set()
    for o in outs:
        s = o.st
        if o.kind != 'ret':
            E.oblige(s, False, 'the operation ends normally (%s)' % o.kind, 'C18')
            continue
        code = E.s(s, o.val)
        if not code.is_const():
            raise Unsupported('result code')
        c = code.c
        calls = s.g['calls']
        has = z3.And(A.is_string(0), A.is_string(1))
        vals = R.values(s)
        seen.add((c, calls[-1] if calls else 'none'))
        E.oblige(s, ('free' in calls) == ('key' in calls), 'the key is released exactly when there is one', 'C18')
        if c == 0:
            E.oblige(s, not vals and not any(x in ('ok', 'failed') for x in calls), 'rejected arguments yield nothing', 'C18')
            if 'nobio' in calls or 'nokey' in calls:
                continue
            if 'key' not in calls:
                E.oblige(s, z3.Not(has), 'arguments are rejected only when a string is missing or the key is unusable', 'C18')
                continue
            if encrypt:
                E.oblige(s, False, 'a usable key and a message are accepted', 'C18')
            else:
                arr, n = A.string(s, 1)
                i = z3.Int('i!bad')
                good = z3.And(n % 2 == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), isdig(z3.Select(arr, i)))))
                E.oblige(s, z3.Not(good), 'a usable key and a hexadecimal message are accepted', 'C18')
            continue
        E.oblige(s, z3.And(has, 'key' in calls), 'accepted arguments start with two strings and a usable key', 'C18')
        g = E.u(s, E.load(s, Ptr(gas.rid, 0), Ty('int', 64))).z
        E.oblige(s, g == 10 * W.size, 'gas is ten per byte of key size', 'C18')
        arr, n = A.string(s, 1)
        if not encrypt:
            i = z3.Int('i!good')
            E.oblige(s, z3.And(n % 2 == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), isdig(z3.Select(arr, i))))), 'only hexadecimal messages are accepted', 'C18')
        if c == 1:
            E.oblige(s, not vals, 'failure yields no value', 'C18')
            E.oblige(s, 'ok' not in calls, 'success of the library yields a result', 'C18')
            E.oblige(s, True if 'failed' in calls else (n > W.size if encrypt else False), 'failure only when the message does not fit or the library fails', 'C18')
            continue
        E.oblige(s, 'ok' in calls, 'a result only when the library succeeds', 'C18')
        E.oblige(s, len(vals) == 1 and vals[0][0] == 'str', 'exactly one string is returned', 'C18')
        if len(vals) != 1 or vals[0][0] != 'str':
            continue
        _, va, vn = vals[0]
        if encrypt:
            same_text(E, s, va, vn, lambda k: enc_at(W.out, k), 2 * W.len, "the library's output is returned in hexadecimal")
        else:
            z, fz = z0(W)
            s.assume(fz)
            same_text(E, s, va, vn, lambda k: z3.Select(W.out, k), z, "the library's output up to its first zero byte is returned")
    for c in (0, 1, 2):
        ok = any(x[0] == c for x in seen)
        E.obs.append(Ob(E.unit, 'executions with verdict %d are covered' % c, 'cover', 'cover', ok, 'seen' if ok else 'refuted: no path', 0.0))


UNITS = {
    'pub_encrypt': lambda c: unit_helper(c, 'pub_encrypt', True, 'RSA_public_encrypt'),
    'priv_encrypt': lambda c: unit_helper(c, 'priv_encrypt', True, 'RSA_private_encrypt'),
    'pub_decrypt': lambda c: unit_helper(c, 'pub_decrypt', False, 'RSA_public_decrypt'),
    'priv_decrypt': lambda c: unit_helper(c, 'priv_decrypt', False, 'RSA_private_decrypt'),
    'life of RSAEncrypt': lambda c: unit_life(c, True),
    'life of RSADecrypt': lambda c: unit_life(c, False),
}
