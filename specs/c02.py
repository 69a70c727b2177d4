"""C02: parsing yields exactly the value the text denotes."""
from eniv.spec import *
from eniv import jtok, jparse
from eniv.jparse import val
from eniv.jtok import DEN, SNOC, UPD, KIND
from specs.c01 import start

TITLE = 'value built by json::Parser and json::Callbacks for every accepted text'
H = jparse.H
REPLAY = {'main': 'replay_c01.cpp', 'sources': build.LIBSRC, 'flags': ['-DREPLAY_VALUES']}
ASSUMPTIONS = ['the nesting depth does not exhaust the call stack',
               'C01: a recursive call returns exactly on a value and leaves the cursor behind it',
               'C05, C07, C11: values copy and assign their content, push_back appends, operator[] gives the element of the key',
               's256 of a decimal numeral within 256 bits is its integer; std::string, std::vector, std::pair and sscanf("%X") as in the standards',
               'no reference into the stack is kept across a recursive call']


def unit_recursion(where):
    def u(ctx):
        W = jtok.World(ctx)
        E, K = W.E, W.K
        st, this = start(W)
        W.find_cursor(st, this)
        i = z3.Int('i0')
        st.assume(0 <= i, i <= W.L)
        W.set_cursor(st, this, i)
        W.know(st, i)
        W.know_den(st, i)
        ctx.verified(*sorted({norm(demangle(n)) for n in W.graph if norm(demangle(n)).startswith(('json::Parser::', 'json::Callbacks::'))}))
        ks, kr = W.places(st, this)
        t, key = z3.Int('container'), z3.Int('key')
        if where != 'top':
            st.assume(KIND(t) == K['ARRAY' if where == 'array' else 'OBJECT'])
            st.g[ks] = ('any', (W.frame_(st, t, key),))
        outs = E.run(W.entry, [this], st)
        need(E, outs, ('ret', 'throw'))
        for o in outs:
            s = o.st
            if o.kind == 'throw':
                continue
            if o.kind != 'ret':
                E.oblige(s, False, 'parsing ends (%s)' % o.kind, 'C02')
                continue
            s.assume(val(i) > i)
            ks2, kr2 = W.places(s, this)
            base, fr = s.g[ks2]
            if where == 'top':
                E.oblige(s, ks2 == ks and kr2 == kr and base == 'empty' and fr == (), 'every opened container is closed', 'C02')
                E.oblige(s, s.g[kr2] == DEN(i), 'the root is the value the text denotes', 'C02')
                continue
            E.oblige(s, ks2 == ks and kr2 == kr and base == 'any' and len(fr) == 1, 'every opened container is closed, none other', 'C02')
            if len(fr) == 1:
                x = s.g[('val', fr[0], 0)]
                if where == 'array':
                    E.oblige(s, x == SNOC(t, DEN(i)), 'the array gets the value as its next element', 'C02')
                else:
                    E.oblige(s, x == UPD(t, key, DEN(i)), 'the object maps the pending key to the value', 'C02')
    return u


def unit_root(ctx):
    W = jtok.World(ctx)
    E, st = W.E, W.st
    ctx.verified('json::Parser::Parser(std::string const&)', 'json::Parser::getRoot()', 'json::Callbacks::getRoot()')
    W.know(st, z3.IntVal(0))
    r = E.new_region(st, 'parser', W.m.glob('k_Parser')[1].v, None, 'obj', 'sym', False)
    p = Ptr(r.rid, 0)
    fn = lambda n: find(W.m, re.compile(r'^%s\(' % n))
    for o in E.run(fn('h_new'), [p, W.text], st):
        if o.kind != 'ret':
            E.oblige(o.st, False, 'construction ends normally (%s)' % o.kind, 'C02')
            continue
        for o2 in E.run(fn('h_ok'), [p], o.st):
            s = o2.st
            if isinstance(o2.val, Undef):
                E.oblige(s, False, 'the verdict is determined', 'C02')
                continue
            s.assume(zbool(E.b1(s, o2.val)))
            if E.P.sat(s.pc, z3.BoolVal(True), 2000)[0] == z3.unsat:
                continue
            outs = E.run(fn('h_root'), [p], s)
            need(E, outs, ('ret',))
            for o3 in outs:
                if o3.kind != 'ret':
                    E.oblige(o3.st, False, 'the root is given', 'C02')
                    continue
                E.oblige(o3.st, W.value(o3.st, o3.val) == DEN(z3.IntVal(0)), 'the root is the value the text denotes', 'C02')


UNITS = {'value as root': unit_recursion('top'), 'value in an array': unit_recursion('array'),
         'value in an object': unit_recursion('object'), 'root': unit_root}
