"""C15: the scrypt core computes RFC 7914 scrypt with N=1024, r=1, p=1 for every
80-byte input, given SHA-256 (an uninterpreted function of the bytes hashed).

ST(32 i + k) is word k of the i-th state of the filling loop, SU(32 i + k) of the
mixing loop; both are defined by recursion on i and instantiated at loop heads."""
from eniv.spec import *
from eniv import word
from eniv.word import xor, add, rol, byte

TITLE = 'scrypt_1024_1_1_256 and scrypt_1024_1_1_256_sp_generic'
SRC = 'tools/eni_scrypt/scrypt.cpp'
REPLAY = {'main': 'replay_c15.cpp', 'sources': [SRC], 'libs': ['-lcrypto']}
ASSUMPTIONS = ['SHA256_Init, SHA256_Update and SHA256_Final compute SHA-256 of the concatenated updates and keep no other state',
               'the input, output and scratch memory are separate objects; the host is not assumed to have any byte order']
ST, SU = z3.Function('fill_state', I, I), z3.Function('mix_state', I, I)
HASHED = z3.Function('byte_of_hash', I, I, I)
I8, I32 = Ty('int', 8), Ty('int', 32)
N = 1024
num = z3.IntVal


def sha(bs):
    bs = [z3.simplify(b) for b in bs]
    h = z3.Function('sha256_of_%d' % len(bs), *([I] * (len(bs) + 1)))(*bs)
    return [HASHED(h, num(k)) for k in range(32)]


def hmac(key, msg):
    if len(key) > 64:
        key = sha(key)
    key = list(key) + [num(0)] * (64 - len(key))
    return sha([xor(num(0x5c), k) for k in key] + sha([xor(num(0x36), k) for k in key] + list(msg)))


def pbkdf2(pw, salt, n):
    """one iteration"""
    out = []
    for i in range(1, (n + 31) // 32 + 1):
        out += hmac(pw, list(salt) + [num(b) for b in i.to_bytes(4, 'big')])
    return out[:n]


def salsa8(B):
    x = list(B)

    def quarter(a, b, c, d):
        x[b] = xor(x[b], rol(add(x[a], x[d]), 7))
        x[c] = xor(x[c], rol(add(x[b], x[a]), 9))
        x[d] = xor(x[d], rol(add(x[c], x[b]), 13))
        x[a] = xor(x[a], rol(add(x[d], x[c]), 18))
    for _ in range(4):
        for q in ((0, 4, 8, 12), (5, 9, 13, 1), (10, 14, 2, 6), (15, 3, 7, 11)):
            quarter(*q)
        for q in ((0, 1, 2, 3), (5, 6, 7, 4), (10, 11, 8, 9), (15, 12, 13, 14)):
            quarter(*q)
    return [add(b, y) for b, y in zip(B, x)]


def block_mix(X):
    y0 = salsa8([xor(a, b) for a, b in zip(X[:16], X[16:])])
    y1 = salsa8([xor(a, b) for a, b in zip(X[16:], y0)])
    return y0 + y1


def at(f, i, k=0):
    return f(z3.simplify((Lin.of(i).scale(32) + k).z))


class World:
    def __init__(self, ctx, tag='C15'):
        self.m = build.compile_ir(build.REPO + '/' + SRC)
        self.E = E = ctx.engine(self.m)
        self.tag, self.st = tag, State()
        self.W = word.Words(E, self.known)
        self.views, self.seen, self.proved = {}, {}, {}
        E.hooks['inttoptr'] = self.address
        E.hooks['copied_cells'] = self.copied
        E.hooks['skip_cells'] = self.data
        E.cand_gens.append(self.cands)
        for n in ('Init', 'Update', 'Final'):
            E.lib.insert(0, (lambda nm, d, n=n: nm == 'SHA256_' + n, getattr(self, 'sha_' + n)))

    # -- SHA-256
    def ctx_key(self, p):
        if not isinstance(p, Ptr) or p.base is None or not p.off.is_const():
            raise Unsupported('hash context at an unknown address')
        return ('sha', p.base, p.off.c)

    def sha_Init(self, E, st, a, I_, dm):
        st.g[self.ctx_key(a[0])] = ()
        return IV(32, 1)

    def sha_Update(self, E, st, a, I_, dm):
        k = self.ctx_key(a[0])
        n = E.u(st, a[2])
        if not n.is_const():
            raise Unsupported('hash of a symbolic length')
        if st.g.get(k) is None:
            E.oblige(st, False, 'a started hash is updated', self.tag)
            raise Unsupported('hash context')
        bs = []
        for j in range(n.c):
            v = E.load(st, a[1] + j, I8)
            if isinstance(v, Undef):
                E.oblige(st, False, 'determined bytes are hashed', self.tag)
                v = E.fresh_iv(st, 8)
            bs.append(z3.simplify(E.u(st, v).z))
        st.g[k] = st.g[k] + tuple(bs)
        return IV(32, 1)

    def sha_Final(self, E, st, a, I_, dm):
        k = self.ctx_key(a[1])
        if st.g.get(k) is None:
            E.oblige(st, False, 'a started hash is finished', self.tag)
            raise Unsupported('hash context')
        for j, b in enumerate(sha(st.g[k])):
            E.store(st, a[0] + j, IV(8, b, 0, 255), I8)
        st.g[k] = None
        return IV(32, 1)

    def copied(self, E, st, d, s, n):
        for (x, rid, o), v in [i for i in st.g.items() if i[0][0] == 'sha']:
            if rid == s.base and s.off.c <= o < s.off.c + n:
                st.g[('sha', d.base, o - s.off.c + d.off.c)] = v

    # -- the aligned part of the scratch space
    def address(self, E, st, lin):
        p = E.dec(lin)
        if p.base is not None:
            return p
        todo, bases = [lin.z], {}
        while todo:
            t = todo.pop()
            if z3.is_const(t) and not z3.is_int_value(t) and t.decl().name().startswith('base!'):
                bases[int(t.decl().name().rsplit('!', 1)[1])] = t
            todo += t.children()
        if len(bases) != 1:
            return None
        (rid, b), = bases.items()
        r = E.regions[rid]
        d = lin.z - b
        key = (rid, z3.simplify(d).get_id())
        if key not in self.views:
            if any(k[0] == rid for k in self.views):
                raise Unsupported('two ways into the scratch space')
            if not r.size.is_const():
                return None
            st.assume(b + r.size.z < 2 ** 64)      # an object does not wrap around the address space
            for g in (0, 3, 7, 15, 31, 63, 127, 255):
                if g <= r.size.c and E.P.prove(st, z3.And(0 <= d, d <= g), 5000, True)[0] == 'proved':
                    break
            else:
                return None
            E.oblige(st, lin.z % 4 == 0, 'the words of the scratch space are aligned', self.tag)
            v = E.new_region(st, 'aligned ' + r.name, r.size.c - g, 4, 'view', 'sym', False, ty='arr')
            self.views[key] = (z3.simplify(d), v, st.mem[v.rid])
        v = self.views[key]
        if v[1].rid not in st.mem:
            st.mem[v[1].rid] = v[2]
        E.rs_w(st, rid).alive = False      # used through the view only
        return Ptr(v[1].rid, 0)

    # -- words
    def known(self, st, t):
        """words read back from the scratch space are states of the filling loop"""
        if not z3.is_select(t) or not st.q:
            return t
        E = self.E
        bases = {t.arg(0).get_id()}
        if not any(selpat(q) in bases for q in st.q):
            return t
        key = (t.get_id(), tuple(q.get_id() for q in st.q))
        if key not in self.proved:
            self.proved[key] = (t, E.P.prove(st, t == ST(t.arg(1)), 5000, True)[0] == 'proved')
        return ST(t.arg(1)) if self.proved[key][1] else t

    def know(self, st, f, i):
        i = Lin.of(z3.simplify(Lin.of(i).z))
        k = (f.name(), i.key())
        if k not in self.seen:
            X = [at(f, i, j) for j in range(32)]
            if f.eq(SU):
                r = self.W_index(X[16])
                X = [xor(x, at(ST, r, j)) for j, x in enumerate(X)]
            nx = i + 1
            self.seen[k] = (i, z3.And(*[at(f, nx, j) == y for j, y in enumerate(block_mix(X))]))
        g = self.seen[k][1]
        if not any(g is x for x in st.pc):
            st.pc.append(g)

    def W_index(self, x):
        return Lin.of(self.E.mask(x, N - 1, 32))

    def data(self, E, L):
        """cells of larger blocks hold data, not control"""
        cs = [loc[1:3] for loc in L.M if loc[0] == 'cell']
        return {c for c in cs if sum(d[0] == c[0] for d in cs) >= 16}

    def cands(self, E, L):
        out = []
        vs = []
        for v in L.vars:
            if v.kind == 'int':
                vs.append((v.name, lambda E_, s, e, v=v: v.get(E_, s, e)))
                vs.append(('%d-%s' % (N, v.name), lambda E_, s, e, v=v: Lin.of(N) - v.get(E_, s, e)))
            elif v.kind == 'ptr' and v.stride == 4:
                vs.append((v.name, lambda E_, s, e, v=v: v.get(E_, s, e).exact_div(32)))
        words = {}
        for loc in L.M:
            if loc[0] == 'cell' and loc[3] == 4:
                words.setdefault(loc[1], set()).add(loc[2])
        j = z3.Int('p!st')
        for nm, g in vs:
            for rid, offs in sorted(words.items()):
                if len(offs) != 32:
                    continue
                o = sorted(offs)
                if o != list(range(o[0], o[0] + 128, 4)):
                    continue
                for f in (ST, SU):
                    def c(E_, s, e, f=f, rid=rid, o=o, g=g):
                        i = g(E_, s, e)
                        if s is not L.st0:
                            self.know(s, f, i)
                        fs = []
                        for k, x in enumerate(o):
                            v = s.mem[rid].cells[x][1]
                            if isinstance(v, Undef):
                                return False
                            fs.append(z3.simplify(E_.u(s, v).z) == at(f, i, k))
                        return z3.And(*fs)
                    out.append(('%s holds %s at %s' % (E.regions[rid].name, f.name(), nm), c))
            for loc in sorted(L.M, key=repr):
                if loc[0] == 'arr' and loc[2] == (0, 4, 'i'):
                    def c(E_, s, e, rid=loc[1], g=g):
                        a = E_.get_arr(s, rid, (0, 4, 'i'))
                        return FA(j, z3.Implies(z3.And(0 <= j, j < g(E_, s, e).scale(32).z), z3.Select(a, j) == ST(j)), z3.Select(a, j))
                    out.append(('%s filled with states below %s' % (E.regions[loc[1]].name, nm), c))
        return out

    def buffers(self):
        E, st = self.E, self.st
        i = E.new_region(st, 'input', 80, None, 'obj', 'sym', False)
        i.const = True
        o = E.new_region(st, 'output', 32, None, 'obj', 'sym', False)
        self.inp = [E.u(st, E.load(st, Ptr(i.rid, k), I8)).z for k in range(80)]
        B = pbkdf2(self.inp, self.inp, 128)
        for k in range(32):
            st.assume(at(ST, 0, k) == sum((B[4 * k + b] * 256 ** b for b in range(1, 4)), B[4 * k]), at(SU, 0, k) == at(ST, N, k))
        return Ptr(i.rid, 0), Ptr(o.rid, 0)

    def check(self, outs, o):
        E = self.E
        need(E, outs)
        salt = [byte(at(SU, N, k), b) for k in range(32) for b in range(4)]
        want = pbkdf2(self.inp, salt, 32)
        for x in outs:
            if x.kind != 'ret':
                E.oblige(x.st, False, 'the digest is computed (%s)' % x.kind, self.tag)
                continue
            for k in range(32):
                v = E.load(x.st, o + k, I8)
                if isinstance(v, Undef):
                    E.oblige(x.st, False, 'output byte %d is written' % k, self.tag)
                    continue
                E.oblige(x.st, E.u(x.st, v).z == want[k], 'output byte %d is that of scrypt' % k, self.tag)


def selpat(q):
    from eniv.exec import _selpat
    return _selpat(q)


def unit_generic(ctx):
    W = World(ctx)
    E, st = W.E, W.st
    ctx.verified('PBKDF2_SHA256(unsigned char const*, unsigned long, unsigned char const*, unsigned long, unsigned long, unsigned char*, unsigned long)',
                 'HMAC_SHA256_Init', 'HMAC_SHA256_Update', 'HMAC_SHA256_Final', 'xor_salsa8', 'scrypt_1024_1_1_256_sp_generic(char const*, char*, char*)')
    i, o = W.buffers()
    s = E.new_region(st, 'scratch', 131072 + 63, None, 'obj', 'sym', False)
    s.align = 1
    W.check(E.run(find(W.m, re.compile(r'^scrypt_1024_1_1_256_sp_generic\(')), [i, o, Ptr(s.rid, 0)], st), o)


def unit_own(ctx):
    W = World(ctx)
    E, st = W.E, W.st
    ctx.verified('scrypt_1024_1_1_256(char const*, char*)')
    i, o = W.buffers()
    W.check(E.run(find(W.m, re.compile(r'^scrypt_1024_1_1_256\(')), [i, o], st), o)


UNITS = {'with caller scratch space': unit_generic, 'with its own scratch space': unit_own}
