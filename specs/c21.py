"""C21: the reverse operation returns the exact reversal."""
from eniv.spec import *
from eniv import jsonw

TITLE = 'the life of the reverse operation'
H = build.VERIF + '/harness/h_reverse.cpp'
REPLAY = {'main': 'replay_c21.cpp', 'sources': build.LIBSRC}
ASSUMPTIONS = ['JSON values through their contracts (C05, C07)']


def setup(ctx):
    m = build.compile_ir(H)
    E = ctx.engine(m)
    st = State()
    jsonw.base_contracts(E)
    A, R = jsonw.Args(E, st), jsonw.Ret(E, st)
    gas = E.new_region(st, 'gas', 8, None, 'obj', 'sym', False)
    t = E.new_region(st, 'text', 32, None, 'obj', 'sym', False)
    lib.sym_string(E, st, Ptr(t.rid, 0), 'text')
    st.assume(z3.Int('len_arg0') < 2 ** 59)
    return m, E, st, A, R, gas, t


def unit_life(ctx):
    m, E, st, A, R, gas, t = setup(ctx)
    ctx.verified('Reverse::gas() const', 'Reverse::run(json::Array&)', 'Reverse::~Reverse()')
    f = find(m, re.compile(r'h_reverse\('))
    st.assume(A.is_string(0))
    outs = E.run(f, [Ptr(t.rid, 0), Ptr(A.arr.rid, 0), Ptr(gas.rid, 0), Ptr(R.arr.rid, 0)], st)
    need(E, outs)
    k = z3.Int('k!rv')
    for o in outs:
        s = o.st
        if o.kind != 'ret':
            E.oblige(s, False, 'the operation ends normally (%s)' % o.kind, 'C21')
            continue
        src, n = A.string(s, 0)
        E.oblige(s, E.s(s, o.val).z == 2, 'an argument list starting with a string is accepted and reversed', 'C21')
        g = E.u(s, E.load(s, Ptr(gas.rid, 0), Ty('int', 64))).z
        E.oblige(s, g == 10 * n, 'gas is ten per byte', 'C21')
        vals = R.values(s)
        E.oblige(s, len(vals) == 1 and vals[0][0] == 'str', 'exactly one string is returned', 'C21')
        if len(vals) == 1 and vals[0][0] == 'str':
            _, va, vn = vals[0]
            E.oblige(s, vn == n, 'the result is as long as the argument', 'C21')
            E.oblige(s, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(va, k) == z3.Select(src, n - 1 - k))), 'the result is the reversal, byte for byte', 'C21')


def unit_parse(ctx):
    m, E, st, A, R, gas, t = setup(ctx)
    ctx.verified('Reverse::parse(json::Array const&)')
    f = find(m, re.compile(r'h_parse\('))
    st.assume(z3.Not(A.is_string(0)))
    try:
        for o in E.run(f, [Ptr(t.rid, 0), Ptr(A.arr.rid, 0)], st):
            E.oblige(o.st, o.kind == 'ret' and E.s(o.st, o.val).z == 0, 'other lists are rejected', 'C21')
    except Unsupported as e:
        E.oblige(st, False, 'other lists are rejected (%s)' % e, 'C21')


UNITS = {'life of Reverse': unit_life, 'Reverse::parse accepts exactly the lists starting with a string': unit_parse}
