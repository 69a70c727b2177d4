"""C01: the JSON parser accepts exactly the documented grammar."""
from eniv.spec import *
from eniv import jparse
from eniv.jparse import val

TITLE = 'verdict of json::Parser on every text'
H = jparse.H
REPLAY = {'main': 'replay_c01.cpp', 'sources': build.LIBSRC}
ASSUMPTIONS = ['the nesting depth does not exhaust the call stack',
               'std::vector<char> and sscanf as in the standards (their contents do not affect the verdict)',
               'the callbacks that build the value return normally and leave the parser alone (C02 runs them)']


class World(jparse.World):
    def __init__(self, ctx, tag):
        jparse.World.__init__(self, ctx, tag)
        E = self.E

        def stub(E_, st, a, I_, dm):
            return None
        E.lib.insert(0, (lambda n, d: norm(d).startswith('json::Callbacks::'), stub))
        E.lib.insert(0, (lambda n, d: re.match(r'std::vector<char, std::allocator<char> ?>::', norm(d)) is not None, stub))

        def scanf(E_, st, a, I_, dm):
            E_.store(st, a[2], E_.fresh_iv(st, 32, 'code'), Ty('int', 32))
            return IV(32, 1)
        E.lib.insert(0, (lambda n, d: n in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf'), scanf))


def start(W):
    """the parser at its first use of the recursive function"""
    E = W.E
    W.capture = []
    E.silent += 1
    E.run(find(W.m, re.compile(r'^h_parse\(')), [W.text], W.st.clone())
    E.silent -= 1
    cap, W.capture = W.capture, None
    if len(cap) != 1:
        raise Unsupported('the constructor starts the recursion %d times' % len(cap))
    return cap[0]


def unit_recursion(ctx):
    W = World(ctx, 'C01')
    E = W.E
    st, this = start(W)
    W.find_cursor(st, this)
    i = z3.Int('i0')
    st.assume(0 <= i, i <= W.L)
    W.set_cursor(st, this, i)
    W.know(st, i)
    W.measure = i
    ctx.verified(*sorted({norm(demangle(n)) for n in W.graph if norm(demangle(n)).startswith('json::Parser::')}))
    before = st.clone()
    outs = E.run(W.entry, [this], st)
    need(E, outs, ('ret', 'throw'))
    for o in outs:
        s = o.st
        if o.kind == 'throw':
            E.oblige(s, o.val in W.excs, 'only the parse error is thrown', 'C01')
            E.oblige(s, val(i) == -1, 'a rejected text has no value here', 'C01')
            continue
        if o.kind != 'ret':
            E.oblige(s, False, 'parsing ends (%s)' % o.kind, 'C01')
            continue
        p = s.mem[this.base].cells[this.off.c + W.cursor][1]
        E.oblige(s, p.base == W.D, 'the cursor stays in the text', 'C01')
        if p.base == W.D:
            E.oblige(s, p.off.z == val(i), 'an accepted text has a value here, and the cursor is behind it', 'C01')
            E.oblige(s, And(i < p.off.z, p.off.z <= W.L), 'the cursor advances and stays in the text', 'C01')
        for x in E.diff(before, s):
            if x[0] == 'cell' and x[1] == this.base and x[2] in W.mutable:
                continue
            if x[1] == this.base:
                E.oblige(s, False, 'the parser keeps its other fields', 'frame')


def unit_verdict(ctx):
    W = World(ctx, 'C01')
    E, st = W.E, W.st
    ctx.verified('json::Parser::Parser(std::string const&)', 'json::Parser::operator bool() const')
    W.know(st, z3.IntVal(0))
    outs = E.run(find(W.m, re.compile(r'^h_parse\(')), [W.text], st)
    need(E, outs)
    for o in outs:
        if o.kind != 'ret':
            E.oblige(o.st, False, 'construction ends normally (%s)' % o.kind, 'C01')
            continue
        if isinstance(o.val, Undef):
            E.oblige(o.st, False, 'the verdict is determined', 'C01')
            continue
        b = E.b1(o.st, o.val)
        E.oblige(o.st, zbool(b) == (val(z3.IntVal(0)) >= 0), 'the verdict says whether the text starts with a value', 'C01')


And = z3.And
UNITS = {'recursion': unit_recursion, 'verdict': unit_verdict}
