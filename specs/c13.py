"""C13: operation lifecycle; C14: malformed argument text (same contracts)."""
from eniv.spec import *
from eniv import jsonw, jworld
from eniv.jworld import CONT, PUSHED, TEXT, TLEN

TITLE = 'EniBase and the C entry points, for every operation and call sequence'
H = build.VERIF + '/harness/h_eni.cpp'
REPLAY = {'main': 'replay_c13.cpp', 'sources': [s for s in build.LIBSRC if s != 'lib/eni.cpp']}
ASSUMPTIONS = ['Parser, Value and Array through their contracts (C01, C02, C05, C07); printed text contains no NUL (C03, C04)',
               "the operation's hooks are arbitrary functions that return (they do not throw) and touch the operation's private state only through their arguments"]
T = z3.BoolVal(True)
F = z3.BoolVal(False)
ACC, KIND, ROOT, V = z3.Bool('accepted'), z3.Int('kind'), z3.Int('root_payload'), z3.Bool('verdict')


def world(E, st, text, tag):
    """text: (array, length) of the argument text"""
    W = jworld.World(E, st)
    g = st.g
    g['hooked'], g['did'], g['gas'], g['tok'], g['ran'], g['gased'] = F, F, z3.IntVal(0), jworld.EMPTYTOK, F, F
    g['parses'] = z3.IntVal(0)
    g['r'] = F
    L = W.L
    st.assume(KIND >= 0, KIND <= 5)
    isarr = KIND == L['ARRAY']
    good = z3.And(isarr, V)

    def on_parse(s, p):
        k = z3.Int('k!txt')
        n = lib.slen(E, s, p).z
        E.oblige(s, s.g['parses'] == 0, 'the argument text is parsed once', tag)
        s.g['parses'] = s.g['parses'] + 1
        E.oblige(s, z3.And(n == text[1], z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(lib.sarr(E, s, p), k) == z3.Select(text[0], k)))),
                 'exactly the argument text is parsed', tag)
    W.on_parse = on_parse

    def parse(E_, s, a, I_, dm):
        E.oblige(s, ACC, 'no hook runs on text the parser rejects', tag)
        E.oblige(s, isarr, 'only arrays are handed to the argument check', tag)
        E.oblige(s, z3.Not(s.g['hooked']), 'the argument check runs at most once', tag)
        p = E.enc(a[0]).z
        E.oblige(s, z3.And(CONT(p) == CONT(ROOT), z3.Implies(isarr, p != ROOT)), 'the operation receives exactly the parsed value, in storage of its own', tag)
        s.g['hooked'] = T
        return B1(V)

    def before(s, what):
        E.oblige(s, ACC, 'no hook runs on text the parser rejects', tag)
        E.oblige(s, z3.And(s.g['hooked'], good), '%s only after the argument check accepted' % what, tag)

    def gas(E_, s, a, I_, dm):
        before(s, 'the cost is asked')
        s.g['gas'] = E.fresh_int('gas')
        s.assume(s.g['gas'] >= 0, s.g['gas'] < 2 ** 64)
        s.g['gased'] = T
        return IV(64, s.g['gas'], 0, 2 ** 64 - 1)

    def run(E_, s, a, I_, dm):
        before(s, 'the operation runs')
        E.oblige(s, z3.Not(s.g['ran']), 'the operation runs once per request', tag)
        t = W.tok(s, a[0])
        E.oblige(s, z3.Or(t == jworld.EMPTYTOK, t == s.g['tok']), 'values are pushed to a list of the results only', tag)
        n = E.fresh_int('pushes')
        s.assume(PUSHED(t, n) != jworld.EMPTYTOK)
        s.g['tok'] = PUSHED(t, n)
        s.g[('tok', a[0].base, a[0].off.c)] = PUSHED(t, n)
        s.g['ran'] = T
        s.g['r'] = E.fresh_bool('success')
        return B1(s.g['r'])

    def check_gas(s, x):
        E.oblige(s, z3.If(good, z3.And(s.g['gased'], x == s.g['gas']), x == 1500), "gas is the operation's own when accepted and 1500 otherwise", tag)
        E.oblige(s, z3.Not(s.g['ran']), 'asking for gas does not run the operation', tag)

    def check_text(s, p):
        pz = E.enc(p).z
        E.oblige(s, s.g['ran'] == good, 'the operation runs exactly when its arguments are accepted', tag)
        if p.base is None:
            E.oblige(s, pz == 0, 'the result is null or newly allocated', tag)
            E.oblige(s, z3.Not(z3.And(good, s.g['r'])), 'a successful run yields a result', tag)
            return
        E.oblige(s, z3.And(good, s.g['r']), 'no result is returned unless the operation succeeds', tag)
        r, rs = E.regions[p.base], s.mem[p.base]
        E.oblige(s, rs.alive and r.kind == 'malloc' and p.off.is_const() and p.off.c == 0, 'the result is newly allocated', tag)
        tok = s.g['tok']
        arr = E.get_arr(s, p.base, lib.BYTE) if not E.cellmode(s, r) or not rs.cells else None
        if arr is None:
            E.to_arrays(s, r)
            arr = E.get_arr(s, p.base, lib.BYTE)
        k = z3.Int('k!res')
        E.oblige(s, z3.And(r.size.z > TLEN(tok), z3.Select(arr, TLEN(tok)) == 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < TLEN(tok)), z3.Select(arr, k) == z3.Select(TEXT(tok), k)))),
                 'the result is the terminated text of the array of the values pushed', tag)
    W.check_gas, W.check_text, W.good = check_gas, check_text, good

    def choose(E_, s, a, I_, dm):
        s.g['ran'] = s.g['gased'] = s.g['r'] = F
        c = E.fresh_int('choice')
        s.assume(c >= 0, c <= 2)
        return IV(32, c, 0, 2)

    def got_gas(E_, s, a, I_, dm):
        check_gas(s, E.u(s, a[0]).z)

    def got_text(E_, s, a, I_, dm):
        check_text(s, a[0])
    for n, f in (('hook_parse', parse), ('hook_gas', gas), ('hook_run', run), ('choose', choose), ('got_gas', got_gas), ('got_text', got_text)):
        E.lib.insert(0, (lambda nm, d, n=n: nm == n, f))

    def cands(E_, L_):
        out = []
        g = lambda k: (lambda s: s.g[k])
        facts = [('checked', lambda s: s.g['hooked']), ('accepted', lambda s: good), ('array', lambda s: isarr),
                 ('checked and accepted', lambda s: z3.And(good, s.g['hooked']))]
        facts += [('not ' + n, lambda s, f=f: z3.Not(f(s))) for n, f in facts]
        vs = [v for v in int_vars(L_) if v.kind == 'int']
        for v in vs:
            out.append(('%s is 0/1' % v.name, lambda E_, s, e, v=v: z3.And(v.get(E_, s, e).z >= 0, v.get(E_, s, e).z <= 1)))
            for k in (0, 1, 2):
                eq = lambda E_, s, e, v=v, k=k: v.get(E_, s, e).z == k
                for n, f in facts:
                    out.append(('%s=%d implies %s' % (v.name, k, n), lambda E_, s, e, eq=eq, f=f: z3.Implies(eq(E_, s, e), f(s))))
                    out.append(('%s implies %s=%d' % (n, v.name, k), lambda E_, s, e, eq=eq, f=f: z3.Implies(f(s), eq(E_, s, e))))
                    for w in vs:
                        if w is not v:
                            for k2 in (0, 1):
                                eq2 = lambda E_, s, e, w=w, k2=k2: w.get(E_, s, e).z == k2
                                out.append(('%s=%d and %s=%d implies %s' % (v.name, k, w.name, k2, n), lambda E_, s, e, eq=eq, eq2=eq2, f=f: z3.Implies(z3.And(eq(E_, s, e), eq2(E_, s, e)), f(s))))
        for key in [loc[1] for loc in L_.M if loc[0] == 'g' and isinstance(loc[1], tuple) and loc[1][0] == 'tok']:
            out.append(('%r holds what was pushed' % (key,), lambda E_, s, e, key=key: s.g[key] == s.g['tok']))
            out.append(('%r is empty' % (key,), lambda E_, s, e, key=key: s.g[key] == jworld.EMPTYTOK))
        out.append(('checked only if an array', lambda E_, s, e: z3.Implies(s.g['hooked'], isarr)))
        return out
    E.cand_gens.append(cands)
    return W


def finish(E, W, s, o, tag):
    if o.kind == 'exit':
        E.oblige(s, z3.Not(ACC), 'text the parser accepts never terminates the process', tag)
        E.oblige(s, E.s(s, o.val).z == 87, 'the exit status is 87', tag)
        E.oblige(s, z3.Not(s.g['hooked']), 'the process ends before any hook runs', tag)
        return False
    if o.kind != 'ret':
        E.oblige(s, False, 'the request ends normally (%s)' % o.kind, tag)
        return False
    E.oblige(s, ACC, 'text the parser rejects terminates the process', tag)
    return True


def unit_history(ctx, fn='h_history', tag='C13'):
    m = build.compile_ir(H)
    E = ctx.engine(m)
    ctx.verified('eni::EniBase::EniBase(std::string const&)', 'eni::EniBase::getGas()', 'eni::EniBase::start()', 'eni::EniBase::~EniBase()')
    st = State()
    t = E.new_region(st, 'text', 32, None, 'obj', 'sym', False)
    W = world(E, st, lib.sym_string(E, st, Ptr(t.rid, 0), 'text'), tag)
    outs = E.run(find(m, re.compile(fn + r'\(')), [Ptr(t.rid, 0)], st)
    need(E, outs, ('ret', 'exit'))
    for o in outs:
        finish(E, W, o.st, o, tag)


def unit_entry(ctx, fn):
    m = build.compile_ir(H)
    E = ctx.engine(m)
    ctx.verified('op_' + fn + ' (ENI_%s macro)' % fn.upper())
    st = State()
    n = z3.Int('text_length')
    st.assume(n >= 0, n < 2 ** 40)
    t = E.new_region(st, 'text', Lin.of(n) + 1, 1, 'obj', 'sym', False, ty='arr')
    a = E.init_arr(t, lib.BYTE)
    k = z3.Int('k!in')
    st.assume(z3.Select(a, n) == 0, FA(k, z3.Implies(z3.And(0 <= k, k < n), z3.And(z3.Select(a, k) > 0, z3.Select(a, k) < 256)), z3.Select(a, k)))
    st.g[('nul', t.rid)] = n
    W = world(E, st, (a, n), 'C13')
    outs = E.run('op_' + fn, [Ptr(t.rid, 0)], st)
    need(E, outs, ('ret', 'exit'))
    for o in outs:
        s = o.st
        if not finish(E, W, s, o, 'C13'):
            continue
        if fn == 'run':
            W.check_text(s, o.val)
        else:
            p = o.val
            ok = isinstance(p, Ptr) and p.base is not None and s.mem[p.base].alive and E.regions[p.base].kind == 'malloc'
            E.oblige(s, ok, 'the gas is returned in newly allocated memory', 'C13')
            if ok:
                W.check_gas(s, E.u(s, E.load(s, p, Ty('int', 64))).z)


UNITS = {'any history of requests': unit_history, 'op_gas': lambda c: unit_entry(c, 'gas'), 'op_run': lambda c: unit_entry(c, 'run')}
