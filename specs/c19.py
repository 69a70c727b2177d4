"""C19: command-line arguments are assigned by position, exactly three."""
from eniv.spec import *

TITLE = 'ceni::Opt::parse against the positional-argument specification'


class ArgvWorld:
    """argv: argc pointers to NUL-terminated strings; bytes live in one flat memory"""

    def __init__(self, E, st):
        self.E = E
        argc, self.argc = ivar(E, st, 'argc', 32, True)
        self.argcv = argc
        st.assume(self.argc >= 0)
        self.r = E.new_region(st, 'argv', (Lin.of(self.argc) + 1).scale(8), 8, 'obj', 'sym', False, ty='arr')
        self.key = (0, 8, 'p')
        self.A = E.init_arr(self.r, self.key)
        self.r.const = True
        self.heap = z3.Array('argbytes', I, I)
        self.slen = z3.Function('arglen', I, I)
        i = z3.Int('i!av')
        t = z3.Select(self.A, i)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.argc), z3.And(
            self.slen(t) >= 0, self.slen(t) < 2 ** 31, t > 4096, z3.Select(self.heap, t + self.slen(t)) == 0)), patterns=[t]))
        k = z3.Int('k!av')
        st.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < self.argc, 0 <= k, k < self.slen(t)), z3.And(
            z3.Select(self.heap, t + k) > 0, z3.Select(self.heap, t + k) < 256)), patterns=[z3.MultiPattern(t, z3.Select(self.heap, t + k))]))
        E.on_raw = self.on_raw
        E.hooks['raw_bytes'] = self.raw_bytes
        E.hooks['raw_strlen'] = self.raw_strlen

    def split(self, st, p):
        for k, (t, n) in p.off.d.items():
            if n == 1 and z3.is_select(t) and t.arg(0).eq(self.A):
                idx = t.arg(1)
                self.E.oblige(st, z3.And(idx >= 0, idx < self.argc), 'argument string dereferenced is one of the vector')
                st.assume(self.slen(t) >= 0, self.slen(t) < 2 ** 31, z3.Select(self.heap, t + self.slen(t)) == 0)
                return t, p.off - Lin({k: (t, 1)}, 0)
        self.E.oblige(st, False, 'dereference of an argument string')
        raise Unsupported('unknown pointer %s' % p.off.z)

    def nz(self, st, t, r):
        """instance of 'bytes before the terminator are non-zero'"""
        st.assume(z3.Implies(z3.And(r >= 0, r < self.slen(t)), z3.And(z3.Select(self.heap, t + r) > 0, z3.Select(self.heap, t + r) < 256)))

    def on_raw(self, E, st, p, ty, v):
        t, r = self.split(st, p)
        if v is not None or ty.k != 'int' or ty.n != 8:
            E.oblige(st, False, 'argument strings are only read bytewise')
            raise Unsupported('argv write')
        E.oblige(st, z3.And(r.z >= 0, r.z <= self.slen(t)), 'read within the argument string')
        self.nz(st, t, r.z)
        x = z3.Select(self.heap, p.off.z)
        st.assume(x >= 0, x < 256)
        return IV(8, x, 0, 255)

    def raw_bytes(self, E, st, p, n, what):
        t, r = self.split(st, p)
        E.oblige(st, z3.And(r.z >= 0, (r + n).z <= self.slen(t) + 1), 'read within the argument string')
        return lib.Bytes(lambda k: z3.Select(self.heap, (p.off + Lin.of(k)).z))

    def raw_strlen(self, E, st, p):
        t, r = self.split(st, p)
        E.oblige(st, z3.And(r.z >= 0, r.z <= self.slen(t)), 'strlen within the argument string')
        return Lin.of(self.slen(t)) - r

    # ---- specification
    def arg(self, i):
        return z3.Select(self.A, i)

    def byte(self, i, k):
        return z3.Select(self.heap, self.arg(i) + k)


def positional_spec(W):
    """cnt(i): positionals among arguments 1..i-1; eoo(i): a lone -- was seen among them; P(k): k-th positional"""
    cnt = z3.Function('cnt', I, I)
    eoo = z3.Function('eoo', I, z3.BoolSort())
    P = z3.Function('posidx', I, I)
    i = z3.Int('i!sp')
    dash = lambda i: W.byte(i, 0) == 45
    lone = lambda i: z3.And(dash(i), W.byte(i, 1) == 45, W.slen(W.arg(i)) == 2)
    ispos = lambda i: z3.Or(z3.Not(dash(i)), eoo(i))
    step = lambda i: z3.And(
        eoo(i + 1) == z3.Or(eoo(i), z3.And(lone(i), z3.Not(eoo(i)))),
        cnt(i + 1) == cnt(i) + z3.If(ispos(i), 1, 0),
        z3.Implies(ispos(i), P(cnt(i) + 1) == i))
    return cnt, eoo, P, step


def shifted(g, d):
    return (lambda E_, s, e: g(E_, s, e) + d) if d else g


def unit_parse(ctx):
    m = build.compile_ir('tools/eni_cli/optParser.cpp')
    E = ctx.engine(m)
    f = find(m, 'ceni::Opt::parse(int, char**)')
    ctx.verified('ceni::Opt::parse(int, char**)')
    st = State()
    W = ArgvWorld(E, st)
    cnt, eoo, P, step = positional_spec(W)
    st.assume(cnt(z3.IntVal(1)) == 0, z3.Not(eoo(z3.IntVal(1))))
    i = z3.Int('i!st')
    st.assume(z3.ForAll([i], z3.Implies(z3.And(1 <= i, i < W.argc), step(i)), patterns=[W.arg(i)]))
    # lemma: cnt never decreases (induction on j)
    j = z3.Int('j!lm')
    a = z3.Int('a!lm')
    Lm = Lemma(E, 'count of positionals is monotone')
    Lm.have(step(j), 1 <= a, a <= j, cnt(a) <= cnt(j))
    Lm.show(cnt(a) <= cnt(j + 1), 'induction step')
    st.assume(z3.ForAll([i], z3.Implies(z3.And(1 <= i, i <= W.argc), z3.And(cnt(i) <= cnt(W.argc), cnt(i) >= 0)), patterns=[cnt(i)]))
    opt = E.new_region(st, 'opt', 160, None, 'obj', 'sym', False)
    names = ['lib', 'op', 'params']
    offs = {}
    for n in ('progname', 'desc'):
        lib.sym_string(E, st, Ptr(opt.rid, 32 * len(offs)), n)
        offs[n] = 32 * len(offs)
    for n in names:
        offs[n] = 32 * len(offs)
        lib.sym_string(E, st, Ptr(opt.rid, offs[n]), n)
    pre = {n: st.g[('s', opt.rid, offs[n])] for n in ('progname', 'desc')}

    def content(st, k, name):
        """string field `name` equals argument number k"""
        p = Ptr(opt.rid, offs[name])
        n, arr = lib.slen(E, st, p), lib.sarr(E, st, p)
        q = z3.Int('q!ct')
        t = W.arg(P(z3.IntVal(k)))
        return z3.And(n.z == W.slen(t), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n.z), z3.Select(arr, q) == z3.Select(W.heap, t + q)),
                                                  patterns=[z3.Select(arr, q)]))

    def cands(E, L):
        out = []
        vs = int_vars(L)
        st1 = lambda v: (lambda E_, s, e: v.stride(E_, s, e) if v.kind == 'int' and v.w == 32 else v.get(E_, s, e))
        for x, dx in [(x, dx) for x in vs for dx in (0, 1)]:
            gx = shifted(st1(x), dx)
            xn = x.name + ('+1' if dx else '')
            out.append(('%s in 1..argc' % xn, lambda E_, s, e, gx=gx: z3.And(gx(E_, s, e).z >= 1, z3.Or(gx(E_, s, e).z <= W.argc, gx(E_, s, e).z == 1))))
            out.append(('%s is 0/1' % xn, lambda E_, s, e, gx=gx: z3.And(gx(E_, s, e).z >= 0, gx(E_, s, e).z <= 1)))
            out.append(('%s<=3' % xn, lambda E_, s, e, gx=gx: gx(E_, s, e).z <= 3))
            for k, n in enumerate(names):
                out.append(('posidx(%d)<%s' % (k + 1, xn), lambda E_, s, e, gx=gx, k=k: z3.Implies(cnt(gx(E_, s, e).z) >= k + 1, z3.And(
                    P(z3.IntVal(k + 1)) >= 1, P(z3.IntVal(k + 1)) < gx(E_, s, e).z))))
                out.append(('%s set once %s passes position %d' % (n, xn, k + 1), lambda E_, s, e, gx=gx, k=k, n=n: z3.Implies(
                    cnt(gx(E_, s, e).z) >= k + 1, content(s, k + 1, n))))
            for y in vs:
                if y is x:
                    continue
                gy = st1(y)
                if dx and y.kind == 'ptr':
                    continue
                for d in (0, 1):
                    out.append(('%s=cnt(%s)+%d' % (y.name, xn, d), lambda E_, s, e, gx=gx, gy=gy, d=d: gy(E_, s, e).z == cnt(gx(E_, s, e).z) + d))
                    out.append(('%s=3-cnt(%s)' % (y.name, xn), lambda E_, s, e, gx=gx, gy=gy, d=d: gy(E_, s, e).z == 3 - cnt(gx(E_, s, e).z)))
                out.append(('%s=eoo(%s)' % (y.name, xn), lambda E_, s, e, gx=gx, gy=gy: (gy(E_, s, e).z != 0) == eoo(gx(E_, s, e).z)))
                out.append(('%s=!eoo(%s)' % (y.name, xn), lambda E_, s, e, gx=gx, gy=gy: (gy(E_, s, e).z == 0) == eoo(gx(E_, s, e).z)))
            for r in [p for p in L.henv if isinstance(L.henv[p], B1) and not isinstance(L.henv[p].t, bool)]:
                out.append(('%s=eoo(%s)' % (r, xn), lambda E_, s, e, gx=gx, r=r: zbool(e[r].t) == eoo(gx(E_, s, e).z)))
        return out
    E.cand_gens.append(cands)
    outs = E.run(f, [Ptr(opt.rid, 0), W.argcv, Ptr(W.r.rid, 0)], st)
    need(E, outs)
    one = z3.IntVal(1)
    total = z3.If(W.argc >= 1, cnt(W.argc), 0)
    for o in outs:
        if o.kind != 'ret':
            E.oblige(o.st, False, 'parse returns normally (no exception)', 'C19')
            continue
        r = zbool(E.b1(o.st, o.val))
        E.oblige(o.st, r == (total == 3), 'parse succeeds exactly when there are exactly three positionals', 'C19')
        for k, n in enumerate(names):
            c = content(o.st, k + 1, n)
            E.oblige(o.st, z3.Implies(r, c.arg(0)), 'on success the length of %s is that of positional %d' % (n, k + 1), 'C19')
            E.oblige(o.st, z3.Implies(r, c.arg(1)), 'on success %s is positional %d byte for byte' % (n, k + 1), 'C19')
            E.oblige(o.st, z3.Implies(r, z3.And(P(z3.IntVal(k + 1)) >= 1, P(z3.IntVal(k + 1)) < W.argc)), 'positional %d exists' % (k + 1), 'C19')
        for n in pre:
            E.oblige(o.st, o.st.g[('s', opt.rid, offs[n])] == pre[n], 'program name and description untouched', 'frame')


UNITS = {'Opt::parse': unit_parse}

LEVEL = "proof"
ASSUMPTIONS = ["argument strings are NUL terminated, separate, and shorter than 2^31 bytes; argc >= 0 and argv has argc entries"]
REPLAY = {'main': 'replay_c19.cpp', 'sources': ['tools/eni_cli/optParser.cpp']}
