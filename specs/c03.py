"""C03: printed strings are valid JSON and parse back to the same bytes."""
from eniv.spec import *
from eniv import jsonw, jout

TITLE = 'Value::print on strings, observed by the string-literal decoder'
H = build.VERIF + '/harness/h_print.cpp'
REPLAY = {'main': 'replay_c03.cpp', 'sources': build.LIBSRC}
ASSUMPTIONS = ['parsing a literal applies the same decoder (C02)', 'sprintf formats non-negative integers with %04X as in C']


def value_at(E, st, kind, hold, name='value'):
    L = jsonw.layout()
    r = E.new_region(st, name, L['Value'], None, 'obj', 'sym', False)
    r.const = True
    rs = st.mem[r.rid]
    rs.cells[L['Value_type']] = (4, kind if isinstance(kind, IV) else IV(32, L[kind]), Ty('int', 32))
    rs.cells[L['Value_hold']] = (8, hold, PTR)
    return Ptr(r.rid, 0)


def unit_print(ctx):
    m = build.compile_ir(H)
    E = ctx.engine(m)
    ctx.verified('json::Value::print(std::ostream&) const (strings)')
    jout.install_sprintf(E)
    st = State()
    s = E.new_region(st, 'string', 32, None, 'new', 'sym', False)
    arr, n = lib.sym_string(E, st, Ptr(s.rid, 0), 'src')
    st.assume(byte_range(arr, n))
    D = st.g[('s', s.rid, 0)]
    E.regions[D].const = True
    v = value_at(E, st, 'STRING', Ptr(s.rid, 0))
    o = E.new_region(st, 'stream', 272, None, 'obj', 'sym', False)
    dec = jout.StringDecoder(E, st, arr, n, 'C03')
    jout.Sink(E, o.rid, dec.feed)
    E.cand_gens.append(dec.cands)
    outs = E.run(find(m, re.compile(r'h_print\(')), [v, Ptr(o.rid, 0)], st)
    need(E, outs)
    for x in outs:
        if x.kind != 'ret':
            E.oblige(x.st, False, 'printing ends normally', 'C03')
            continue
        E.oblige(x.st, dec.done(x.st), 'the literal is closed and represents every byte', 'C03')
        E.oblige(x.st, x.st.g[('s', s.rid, 0)] == D and x.st.g[('n', D)].eq(n), 'the value is unchanged', 'frame')


UNITS = {'Value::print of a string': unit_print}
