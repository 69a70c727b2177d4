"""C20: the command-line tools report each failure distinctly and print the result."""
from eniv.spec import *

TITLE = 'eni_run and eni_gas: main against the step-by-step specification'
ASSUMPTIONS = ['dlopen/dlsym/dlclose, the loaded operation and iostreams behave as their trusted contracts say; '
               'the operation returns NULL or malloc\'ed memory (a terminated text for run, a 64-bit number for gas)',
               'Opt::parse is used through its contract (proved under C19)']
REPLAY = {'main': 'replay_c20.cpp', 'sources': ['tools/eni_cli/optParser.cpp'], 'libs': ['-ldl']}


def unit_main(ctx, src, suffix, parse_error, kind):
    m = build.compile_ir(src)
    E = ctx.engine(m)
    f = find(m, 'main')
    ctx.verified('main of ' + src)
    st = State()
    argc, _ = ivar(E, st, 'argc', 32, True)
    argv = E.new_region(st, 'argv', 8 * 4, 8, 'obj', 'sym', False)
    for g in ('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog'):
        if m.glob(g):
            p = E.global_ptr(st, g)
            lib.open_stream(E, st, p, g)
            if g == '_ZSt4cout':
                cout = lib.okey(p)
    parsed = z3.Bool('options_ok')
    fields = {}
    st.g['trace'] = ()

    def step(s, x):
        s.g['trace'] = s.g['trace'] + (x,)

    class Parse:
        """contract of Opt::parse (C19): on success the three strings are the positionals"""
        def apply(self, E_, s, a):
            E.oblige(s, isinstance(a[1], IV) and isinstance(a[2], Ptr) and a[2].base == argv.rid and same(a[1], argc), 'options parsed from the arguments of main', 'C20')
            E.oblige(s, not any(t == 'parse' for t in s.g['trace']), 'options parsed once', 'C20')
            s2 = s.clone()
            s2.assume(z3.Not(parsed))
            step(s2, 'parse-failed')
            s.assume(parsed)
            step(s, 'parse')
            for nm, off in (('lib', 64), ('op', 96), ('params', 128)):
                p = Ptr(a[0].base, a[0].off + off)
                arr = z3.Array('text_' + nm, I, I)
                n = z3.Int('len_' + nm)
                s.assume(n >= 0, n < 2 ** 31)
                lib.set_content(E, s, p, arr, n)
                fields[nm] = (arr, Lin.of(n))
            return [Outcome('ret', s, B1(True)), Outcome('ret', s2, B1(False))]
    E.contracts['ceni::Opt::parse(int, char**)'] = Parse()

    def text_is(s, ptr, nm, tail=''):
        """C string at ptr is the field, followed by tail"""
        arr, n = fields[nm]
        m_ = n + len(tail)
        b = lib.bytes_at(E, s, ptr, m_ + 1)
        q = z3.Int('q!ti')
        return z3.And(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n.z), b.at(Lin.of(q)) == z3.Select(arr, q))), b.at(m_) == 0,
                      *[b.at(n + i) == ord(c) for i, c in enumerate(tail)])
    handle = z3.Int('handle')
    sym = z3.Int('symbol')

    def dlopen(E_, s, a, I_, dm):
        E.oblige(s, s.g['trace'] == ('parse',), 'library loaded once, right after the options', 'C20')
        E.oblige(s, text_is(s, a[0], 'lib'), 'the library of the first positional is loaded', 'C20')
        fl = E.u(s, a[1])
        E.oblige(s, fl.is_const() and (fl.c & 3) in (1, 2), 'dlopen flags select a binding mode', 'C20')
        s2 = s.clone()
        s2.assume(handle == 0)
        step(s2, 'dlopen-failed')
        s.assume(handle != 0)
        step(s, 'dlopen')
        return [Outcome('ret', s, Ptr(None, handle)), Outcome('ret', s2, NULL)]

    def dlsym(E_, s, a, I_, dm):
        E.oblige(s, s.g['trace'] == ('parse', 'dlopen'), 'symbol looked up once in the open library', 'C20')
        E.oblige(s, E.enc(a[0]).z == handle, 'symbol looked up in the loaded library', 'C20')
        E.oblige(s, text_is(s, a[1], 'op', suffix), 'symbol is the operation name followed by ' + suffix, 'C20')
        s2 = s.clone()
        s2.assume(sym == 0)
        step(s2, 'dlsym-failed')
        s.assume(sym != 0)
        step(s, 'dlsym')
        return [Outcome('ret', s, Ptr(None, sym)), Outcome('ret', s2, NULL)]

    res = {}

    def indirect(E_, s, v, a, I_):
        E.oblige(s, isinstance(v, Ptr) and E.enc(v).z == sym, 'the function called is the operation', 'C20')
        E.oblige(s, s.g['trace'] == ('parse', 'dlopen', 'dlsym'), 'the operation is called once while the library is loaded', 'C20')
        E.oblige(s, text_is(s, a[0], 'params'), 'the operation gets the parameter text', 'C20')
        s2 = s.clone()
        step(s2, 'op-failed')
        step(s, 'op')
        if kind == 'run':
            n = z3.Int('result_len')
            s.assume(n >= 0, n < 2 ** 40)
            arr = z3.Array('result_text', I, I)
            q = z3.Int('q!rt')
            s.assume(z3.Select(arr, n) == 0, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.Select(arr, q) != 0), patterns=[z3.Select(arr, q)]))
            r = E.new_region(s, 'result', Lin.of(n) + 1, 1, 'malloc', 'sym', True, ty='arr', arrs={lib.BYTE: arr})
            s.g[('nul', r.rid)] = n
            res['run'] = (arr, n)
        else:
            x = z3.Int('gas')
            s.assume(x >= 0, x < 2 ** 64)
            r = E.new_region(s, 'result', 8, None, 'malloc', 'sym', True, cells={0: (8, IV(64, x, 0, 2 ** 64 - 1), Ty('int', 64))})
            res['gas'] = x
        s.g['result'] = r.rid
        return [Outcome('ret', s, Ptr(r.rid, 0)), Outcome('ret', s2, NULL)]

    def dlclose(E_, s, a, I_, dm):
        E.oblige(s, E.enc(a[0]).z == handle, 'only the loaded library is closed', 'C20')
        E.oblige(s, 'dlopen' in s.g['trace'] and 'dlclose' not in s.g['trace'], 'library closed at most once', 'C20')
        step(s, 'dlclose')
        return IV(32, 0)
    for nm, h in (('dlopen', dlopen), ('dlsym', dlsym), ('dlclose', dlclose)):
        E.lib.insert(0, (lambda n, d, nm=nm: n == nm, h))
    E.hooks['indirect'] = indirect
    outs = E.run(f, [argc, Ptr(argv.rid, 0)], st)
    need(E, outs)
    seen = set()
    for o in outs:
        s = o.st
        if o.kind not in ('ret', 'exit'):
            E.oblige(s, False, 'main ends normally', 'C20')
            continue
        tr = [t for t in s.g['trace'] if t != 'dlclose']
        code = E.s(s, o.val).z
        last = tr[-1] if tr else 'none'
        seen.add(last)
        want = {'parse-failed': parse_error, 'dlopen-failed': 3, 'dlsym-failed': 4, 'op-failed': 5, 'op': 0}.get(last)
        E.oblige(s, want is not None, 'main stops only after a failed step or the operation (stopped after %s)' % last, 'C20')
        if want is None:
            continue
        E.oblige(s, code == want, 'exit status %d after %s' % (want, last), 'C20')
        D = s.g[cout]
        arr, n = E.get_arr(s, D, lib.BYTE), s.g[('n', D)]
        if last != 'op':
            E.oblige(s, n == 0, 'no result printed after %s' % last, 'C20')
            continue
        E.oblige(s, not s.mem[s.g['result']].alive, 'the returned memory is released', 'C20')
        if kind == 'run':
            ra, rn = res['run']
        else:
            ra, rn = lib.DECARR(res['gas']), lib.DECLEN(res['gas'])
        E.oblige(s, n == rn + 1, 'exactly the result and a newline are printed (length)', 'C20')
        q = z3.Int('q!out')
        E.oblige(s, z3.And(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < rn), z3.Select(arr, q) == z3.Select(ra, q))), z3.Select(arr, rn) == 10),
                 'exactly the result and a newline are printed (content)', 'C20')
    for x in ('parse-failed', 'dlopen-failed', 'dlsym-failed', 'op-failed', 'op'):
        E.obs.append(Ob(E.unit, 'executions ending after %s are covered' % x, 'cover', 'cover', x in seen, 'seen' if x in seen else 'refuted: no path', 0.0))


UNITS = {
    'eni_run main': lambda ctx: unit_main(ctx, 'tools/eni_cli/eni_run.cpp', '_run', 1, 'run'),
    'eni_gas main': lambda ctx: unit_main(ctx, 'tools/eni_cli/eni_gas.cpp', '_gas', 2, 'gas'),
}
