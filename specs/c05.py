"""C05: values copy deeply, move, delegate and are destroyed without sharing.

A value is real memory; its payload is a separate heap object whose content is
an opaque token.  Copying a string, integer, object or array yields a new object
of the same content (C07, C11 for the containers, whose elements are copied by
Value's own assignment: the induction over nesting)."""
from eniv.spec import *
from eniv import jsonw

TITLE = 'construction, copy, assignment, move, delegation, destruction and queries of Value, Array and Object, by kind'
H = build.VERIF + '/harness/h_value.cpp'
REPLAY = {'main': 'replay_c05.cpp', 'sources': build.LIBSRC}
ASSUMPTIONS = ['copying a std::string, an integer, a Vector (C07) or a StringMap (C11, C12) yields a separate object of equal content; such copies do not throw',
               'the dynamic type of an owned object or array is Object or Array']
KINDS = ('INT', 'BOOL', 'STRING', 'OBJECT', 'ARRAY', 'UNDEF')
OWNED = ('INT', 'STRING', 'OBJECT', 'ARRAY')
I32, I64 = Ty('int', 32), Ty('int', 64)
INTOF, CSTROF = z3.Function('integer_content', I, I), z3.Function('text_content', I, I)


class World:
    def __init__(self, ctx, tag='C05'):
        self.m = build.compile_ir(H)
        self.E = ctx.engine(self.m)
        self.st = State()
        self.tag, self.L = tag, jsonw.layout()
        E = self.E
        on = lambda pat, f: E.lib.insert(0, (lambda n, d: bool(re.match(pat, norm(d))), f))
        on(r'std::string::(basic_string|basic_string<.*>)\(', self.ctor('STRING'))
        on(r'(std::string::~basic_string|std::string::~string)\(\)', self.dtor('STRING'))
        on(r'boost::multiprecision::number<.*>::number(<.*>)?\(', self.ctor('INT'))
        for k, c in (('OBJECT', 'Object'), ('ARRAY', 'Array')):
            on(r'json::%s::%s\(' % (c, c), self.ctor(k))
            E.lib.insert(0, (lambda n, d, c=c: norm(d) == 'json::%s::~%s()' % (c, c) and ('D1Ev' in n or 'D2Ev' in n) and '_ZTh' not in n, self.dtor(k)))

    def key(self, p):
        if not isinstance(p, Ptr) or p.base is None or not p.off.is_const():
            return None
        return ('c', p.base, p.off.c)

    def token(self, s, p, kind):
        """content of the object of that kind at p, which must be alive"""
        v = s.g.get(self.key(p))
        if v is None or v[0] != kind or not s.mem[p.base].alive:
            self.E.oblige(s, False, 'an existing %s is used' % kind.lower(), self.tag)
            return self.E.fresh_int('lost')
        return v[1]

    def ctor(self, kind):
        def f(E, s, a, I_, dm):
            d = norm(dm)
            ps = lib.split_args(d[d.rindex('(', 0, len(d)) + 1:-1]) if d.endswith(')') else []
            if self.key(a[0]) is None:
                raise Unsupported('construction at an unknown address')
            if s.g.get(self.key(a[0]), ('dead',))[0] != 'dead':
                E.oblige(s, False, 'no object is constructed over another', self.tag)
            E.bounds(s, a[0], self.psize(kind), 'construction')
            if len(a) == 1:
                t = z3.IntVal(0)
            elif kind == 'STRING' and 'char const*' in d[d.index('basic_string('):] if 'basic_string(' in d else kind == 'STRING' and 'char const*' in d:
                t = CSTROF(E.enc(a[1]).z)
            elif kind == 'INT' and not re.search(r'number(<.*>)? const&\)$', d):
                v = E.load(s, a[1], I32) if isinstance(a[1], Ptr) else a[1]
                t = INTOF(E.s(s, v).z)
            else:
                t = self.token(s, a[1], kind)
            s.g[self.key(a[0])] = (kind, t)
            return None
        return f

    def psize(self, kind):
        return {'STRING': 32, 'INT': 32, 'OBJECT': self.L['Object'], 'ARRAY': self.L['Array']}[kind]

    def dtor(self, kind):
        def f(E, s, a, I_, dm):
            self.token(s, a[0], kind)
            if self.key(a[0]):
                s.g[self.key(a[0])] = ('dead',)
            return None
        return f

    def fn(self, n):
        return find(self.m, re.compile(r'^%s\(' % n))

    # -- inputs
    def payload(self, kind, nm='payload', const=True, where='new'):
        r = self.E.new_region(self.st, nm, 64 if kind in ('INT', 'STRING') else self.psize(kind), None, where, 'sym', False)
        r.const = const
        if kind in ('OBJECT', 'ARRAY'):
            vt = self.E.global_ptr(self.st, '_ZTVN4json%sE' % ('6Object' if kind == 'OBJECT' else '5Array'))
            self.st.mem[r.rid].cells[0] = (8, vt + 16, PTR)
        t = z3.Int('content_' + nm)
        self.st.g[('c', r.rid, 0)] = (kind, t)
        return Ptr(r.rid, 0), t

    def value(self, kind, nm='v', const=True):
        """a value of the given kind: (pointer, payload pointer or boolean, content)"""
        E, st, L = self.E, self.st, self.L
        r = E.new_region(st, nm, L['Value'], None, 'obj', 'sym', False)
        r.const = const
        h = t = None
        c = st.mem[r.rid].cells
        if kind in OWNED:
            h, t = self.payload(kind, 'payload_' + nm, const)
            hold = h
            c[L['Value_hold']] = (8, h, PTR)
        else:
            x, hi = z3.Int('bits_' + nm), z3.Int('hi_' + nm)
            st.assume(x >= 0, x <= (1 if kind == 'BOOL' else 255), hi >= 0, hi < 2 ** 56)
            c[L['Value_hold']] = (8, IV(64, x + 256 * hi, 0, 2 ** 64 - 1), I64)
            h, t = None, x
        c[L['Value_type']] = (4, IV(32, L[kind]), I32)
        return Ptr(r.rid, 0), h, t

    def raw(self, nm='target'):
        """storage of unknown content"""
        E, st = self.E, self.st
        r = E.new_region(st, nm, self.L['Value'], None, 'obj', 'sym', False)
        k = z3.Int('garbage_kind')
        st.assume(k >= 0, k < 2 ** 32)
        st.mem[r.rid].cells[self.L['Value_type']] = (4, IV(32, k, 0, 2 ** 32 - 1), I32)
        return Ptr(r.rid, 0)

    def kind(self, s, p):
        return self.E.u(s, self.E.load(s, p + self.L['Value_type'], I32)).z

    def hold(self, s, p, ty=PTR):
        return self.E.load(s, p + self.L['Value_hold'], ty)

    def boolean(self, s, p):
        return self.E.u(s, self.hold(s, p, Ty('int', 8))).z % 256

    # -- postconditions
    def holds(self, s, p, kind, t, what, own=True, known=()):
        """p is a value of that kind and content, its payload at none of the known objects"""
        E, tag = self.E, self.tag
        E.oblige(s, self.kind(s, p) == self.L[kind], '%s: kind' % what, tag)
        if kind == 'BOOL':
            E.oblige(s, self.boolean(s, p) == t, '%s: truth value' % what, tag)
        if kind in OWNED:
            h = self.hold(s, p)
            v = s.g.get(self.key(h)) if self.key(h) else None
            ok = v is not None and v[0] == kind and s.mem[h.base].alive and h.off.c == 0 and E.regions[h.base].kind == 'new'
            E.oblige(s, bool(ok), '%s: owns an object of its kind' % what, tag)
            if ok:
                E.oblige(s, v[1] == t, '%s: content' % what, tag)
                if own:
                    E.oblige(s, h.base not in known, '%s: shares no storage' % what, tag)

    def run(self, name, args, post, kinds=('ret',), throw=None):
        E = self.E
        outs = E.run(self.fn(name), args, self.st)
        need(E, outs, kinds)
        for o in outs:
            if o.kind == 'throw' and throw:
                throw(o.st, o.val)
            elif o.kind == 'ret' and 'ret' in kinds:
                post(o.st, o.val)
            else:
                E.oblige(o.st, False, 'ends as specified', self.tag)


def each(kinds=KINDS):
    def deco(f):
        def u(ctx):
            for k in kinds:
                f(ctx, k)
        return u
    return deco


@each()
def u_copy(ctx, k):
    ctx.verified('json::Value::Value(json::Value const&)')
    W = World(ctx)
    v, h, t = W.value(k, 'source')
    p = W.raw()
    known = set(W.st.mem)

    def post(s, r):
        W.holds(s, p, k, t, 'the copy', True, known)
        W.holds(s, v, k, t, 'the source', False)
    W.run('h_copy', [p, v], post)


@each()
def u_assign(ctx, k):
    ctx.verified('json::Value::operator=(json::Value const&)')
    W = World(ctx)
    v, h, t = W.value(k, 'source')
    p = W.raw()
    known = set(W.st.mem)

    def post(s, r):
        W.holds(s, p, k, t, 'the assigned value', True, known)
        W.holds(s, v, k, t, 'the source', False)
        W.E.oblige(s, r.base == p.base, 'the assigned value is returned', 'C05')
    W.run('h_set', [p, v], post)


@each()
def u_self(ctx, k):
    ctx.verified('json::Value::operator=(json::Value const&)')
    W = World(ctx)
    v, h, t = W.value(k, 'v', False)
    W.run('h_set', [v, v], lambda s, r: W.holds(s, v, k, t, 'the value assigned to itself', False))


@each()
def u_move(ctx, k):
    ctx.verified('json::Value::Value(json::Value&&)')
    W = World(ctx)
    v, h, t = W.value(k, 'source', False)
    p = W.raw()

    def post(s, r):
        W.holds(s, p, k, t, 'the target', False)
        W.holds(s, v, 'UNDEF', None, 'the source')
    W.run('h_move', [p, v], post)


@each()
def u_destroy(ctx, k):
    ctx.verified('json::Value::~Value()')
    W = World(ctx)
    v, h, t = W.value(k, 'v', False)

    def post(s, r):
        if k in ('STRING', 'OBJECT', 'ARRAY'):
            W.E.oblige(s, s.g[('c', h.base, 0)][0] == 'dead' and not s.mem[h.base].alive, 'the owned object is destroyed and released', 'C05')
    W.run('h_delete', [v], post)


def delegating(nm, kind):
    @each()
    def u(ctx, k):
        ctx.verified('json::Value::delegate')
        W = World(ctx)
        v, h, t = W.value(k, 'v', False)
        b, tb = W.payload(kind, 'given')

        def post(s, r):
            W.holds(s, v, kind, tb, 'the delegated value', False)
            W.E.oblige(s, W.E.enc(W.hold(s, v)).z == W.E.enc(b).z, 'the given object itself is adopted', 'C05')
            W.E.oblige(s, isinstance(r, Ptr) and r.base == v.base, 'the value is returned', 'C05')

        def throw(s, ty):
            W.E.oblige(s, W.E.exc_matches(ty, '_ZTISt11logic_error'), 'a logic error is reported', 'C05')
            W.holds(s, v, k, t, 'the value', False)
            if h is not None:
                W.E.oblige(s, W.E.enc(W.hold(s, v)).z == W.E.enc(h).z, 'the value keeps its object', 'C05')
        W.run(nm, [v, b], post, ('ret',) if k == 'UNDEF' else ('throw',), throw if k != 'UNDEF' else None)
    return u


def u_construct(ctx):
    def one(nm, kind, arg, tok):
        W = World(ctx)
        ctx.verified('json::Value::Value (%s)' % nm[2:])
        p = W.raw()
        a, t = arg(W), None
        a, t = a
        known = set(W.st.mem)
        W.run(nm, [p] + ([a] if a is not None else []), lambda s, r: W.holds(s, p, kind, t, 'the new value', True, known))
    one('h_default', 'UNDEF', lambda W: (None, None), None)
    one('h_bool', 'BOOL', lambda W: (lambda b: (B1(b), z3.If(b, 1, 0)))(z3.Bool('b')), None)

    def num(W):
        v, x = ivar(W.E, W.st, 'n', 32, True)
        return v, INTOF(x)
    one('h_int', 'INT', num, None)

    def chars(W):
        r = W.E.new_region(W.st, 'text', 2 ** 20, None, 'obj', 'sym', False)
        r.const = True
        return Ptr(r.rid, 0), CSTROF(W.E.enc(Ptr(r.rid, 0)).z)
    one('h_chars', 'STRING', chars, None)
    for nm, k in (('h_string', 'STRING'), ('h_s256', 'INT'), ('h_object', 'OBJECT'), ('h_array', 'ARRAY')):
        one(nm, k, lambda W, k=k: W.payload(k, 'given'), None)


def u_queries(ctx):
    ctx.verified('json::Notation::is*', 'json::Value::to*', 'json::Value::as*')
    for k in KINDS:
        for q, want in [('is' + {'INT': 'Integer', 'BOOL': 'Boolean', 'STRING': 'String', 'OBJECT': 'Object', 'ARRAY': 'Array', 'UNDEF': 'Undefined'}[x], x == k) for x in KINDS] + [('type', None)]:
            W = World(ctx)
            v, h, t = W.value(k, 'v')

            def post(s, r, want=want):
                z = z3.If(r.t, 1, 0) if isinstance(r, B1) and not isinstance(r.t, bool) else z3.IntVal(int(r.t)) if isinstance(r, B1) else W.E.u(s, r).z
                W.E.oblige(s, z == (W.L[k] if want is None else int(want)), 'kind query', 'C05')
            W.run('h_' + q, [v], post)
        W = World(ctx)
        v, h, t = W.value(k, 'v')
        if k == 'BOOL':
            W.run('h_toBoolean', [v], lambda s, r: W.E.oblige(s, (r.t if isinstance(r, B1) else W.E.u(s, r).z == 1) == (t == 1), 'truth value', 'C05'))
        elif k in OWNED:
            for pre in ('to', 'as'):
                W = World(ctx)
                v, h, t = W.value(k, 'v')
                W.run('h_' + pre + {'INT': 'Integer', 'STRING': 'String', 'OBJECT': 'Object', 'ARRAY': 'Array'}[k], [v],
                      lambda s, r: W.E.oblige(s, W.E.enc(r).z == W.E.enc(h).z, 'the payload itself', 'C05'))


def u_containers(ctx):
    """Array and Object: the base container is copied by its own copy operation and the kind is right"""
    L = jsonw.layout()
    for pre, cls, base, kind in (('arr', 'Array', r'eni::Vector<json::Value>', 'ARRAY'), ('obj', 'Object', r'eni::StringMap<json::Value>', 'OBJECT')):
        for op in ('new', 'copy', 'set'):
            m = build.compile_ir(H)
            E = ctx.engine(m)
            ctx.verified('json::%s (%s)' % (cls, op))
            st = State()
            mk = lambda nm: Ptr(E.new_region(st, nm, L[cls], None, 'obj', 'sym', False).rid, 0)
            p, o = mk('target'), mk('source')
            E.regions[o.base].const = True
            st.mem[o.base].cells[L[cls + '_type']] = (4, IV(32, L[kind]), I32)
            if op == 'set':
                st.mem[p.base].cells[L[cls + '_type']] = (4, IV(32, L[kind]), I32)
            st.g['content'] = z3.IntVal(-1)
            CO = z3.Int('content_source')

            def base_op(E_, s, a, I_, dm, what=None):
                d = norm(dm)
                E.oblige(s, a[0].base == p.base and a[0].off.is_const() and a[0].off.c == 0, 'the container part of the target is set', 'C05')
                if re.search(r'\((eni::\w+<json::Value>) const&\)$', d):
                    E.oblige(s, a[1].base == o.base and a[1].off.is_const() and a[1].off.c == 0, 'the content is that of the source', 'C05')
                    s.g['content'] = CO
                elif re.search(r'\((|unsigned long)\)$', d):
                    s.g['content'] = z3.IntVal(0)
                else:
                    raise Unsupported(d)
                return a[0] if 'operator=' in d else None
            E.lib.insert(0, (lambda n, d, base=base: bool(re.match(base + r'::(Vector|StringMap|operator=)\(', norm(d))), base_op))
            outs = E.run(find(m, re.compile(r'^h_%s_%s\(' % (pre, op))), [p] + ([o] if op != 'new' else []), st)
            need(E, outs)
            for x in outs:
                E.oblige(x.st, x.kind == 'ret', 'returns', 'C05')
                E.oblige(x.st, x.st.g['content'] == (0 if op == 'new' else CO), 'the container holds the right content', 'C05')
                E.oblige(x.st, E.u(x.st, E.load(x.st, p + L[cls + '_type'], I32)).z == L[kind], 'the kind is right', 'C05')


UNITS = {'copy construction': u_copy, 'assignment': u_assign, 'assignment to itself': u_self, 'move construction': u_move, 'destruction': u_destroy,
         'delegation of an integer': delegating('h_del_int', 'INT'), 'delegation of an object': delegating('h_del_object', 'OBJECT'),
         'delegation of an array': delegating('h_del_array', 'ARRAY'), 'construction': u_construct, 'queries': u_queries, 'containers': u_containers}
