"""Textual LLVM 18 IR reader: types, layouts, globals and (lazily) functions.

Nothing of the program is interpreted here; this module only turns the text
that clang printed for /repo's sources into Python objects.
"""
import re, subprocess, functools

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"            |   # char array constant
   [%@][-a-zA-Z$._0-9]+         |
   [%@]"(?:[^"\\]|\\.)*"        |
   ![-a-zA-Z$._0-9]*            |
   "(?:[^"\\]|\\.)*"            |
   \#[0-9]+                     |
   -?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)? |
   0x[0-9A-Fa-f]+ |
   -?[0-9]+                     |
   [a-zA-Z_][a-zA-Z0-9_.]*      |
   \.\.\.                       |
   <\{ | \}> | [()\[\]{}<>,=*:|]
''', re.X)


def toks(s):
    return TOK.findall(s)


class Ty:
    __slots__ = ('k', 'n', 'e', 'name')

    def __init__(self, k, n=None, e=None, name=None):
        self.k, self.n, self.e, self.name = k, n, e, name

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'named':
            return '%' + self.name
        if self.k == 'array':
            return '[%d x %r]' % (self.n, self.e)
        if self.k == 'struct':
            return '{' + ', '.join(map(repr, self.e)) + '}'
        return self.k


PTR = Ty('ptr')
VOID = Ty('void')


class P:
    """token cursor"""

    def __init__(self, t):
        self.t, self.i = t, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if x != y:
            raise SyntaxError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext',
               'returned', 'immarg', 'inreg', 'nofree', 'nest', 'dead_on_unwind', 'writable', 'swiftself', 'allocptr',
               'noalias', 'allocalign'}
RET_PREFIX = {'dso_local', 'linkonce_odr', 'weak_odr', 'internal', 'private', 'external', 'available_externally',
              'linkonce', 'weak', 'hidden', 'protected', 'default', 'fastcc', 'ccc', 'coldcc', 'unnamed_addr',
              'local_unnamed_addr', 'extern_weak', 'dso_preemptable', 'common', 'appending', 'constant', 'global',
              'thread_local', 'externally_initialized'}


def parse_type(p):
    t = p.next()
    if re.fullmatch(r'i[0-9]+', t):
        ty = Ty('int', int(t[1:]))
    elif t == 'ptr':
        ty = PTR
    elif t == 'void':
        ty = VOID
    elif t in ('float', 'double', 'half', 'x86_fp80', 'fp128', 'label', 'metadata', 'token'):
        ty = Ty(t)
    elif t[0] == '%':
        ty = Ty('named', name=t[1:].strip('"'))
    elif t == '[':
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect(']')
        ty = Ty('array', n, e)
    elif t == '<' :
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect('>')
        ty = Ty('vector', n, e)
    elif t == '{' or t == '<{':
        es = []
        close = '}' if t == '{' else '}>'
        if not p.accept(close):
            while True:
                es.append(parse_type(p))
                if p.accept(close):
                    break
                p.expect(',')
        ty = Ty('struct', 1 if t == '<{' else 0, es)
    elif t == 'opaque':
        ty = Ty('opaque')
    else:
        raise SyntaxError('type? %s in %s' % (t, ' '.join(p.t)))
    # function type suffix (varargs call)
    if p.peek() == '(' and ty.k != 'x':
        # only when it looks like a function type: "(ptr, ...)" followed by @ or %
        d, j = 0, p.i
        while True:
            if p.t[j] == '(':
                d += 1
            elif p.t[j] == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        if j + 1 < len(p.t) and p.t[j + 1][0] in '@%' and all(
                re.fullmatch(r'(i[0-9]+|ptr|,|\.\.\.|double|float|void|[%\[\]{}x0-9].*)', x) for x in p.t[p.i + 1:j]):
            p.i = j + 1
    return ty


class Val:
    """operand: kind in reg, int, null, undef, global, ce (constant expr), agg, cstr, zero, fp, meta"""
    __slots__ = ('k', 'v', 'ty', 'x')

    def __init__(self, k, v=None, ty=None, x=None):
        self.k, self.v, self.ty, self.x = k, v, ty, x

    def __repr__(self):
        return 'Val(%s,%r)' % (self.k, self.v)


def cstr_bytes(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def parse_value(p, ty):
    t = p.next()
    if t[0] == '%':
        return Val('reg', t[1:].strip('"'), ty)
    if t[0] == '@':
        return Val('global', t[1:].strip('"'), ty)
    if re.fullmatch(r'-?[0-9]+', t):
        return Val('int', int(t), ty)
    if t in ('true', 'false'):
        return Val('int', 1 if t == 'true' else 0, ty)
    if t == 'null':
        return Val('null', None, ty)
    if t in ('undef', 'poison'):
        return Val('undef', None, ty)
    if t == 'zeroinitializer':
        return Val('zero', None, ty)
    if t.startswith('c"'):
        return Val('cstr', cstr_bytes(t), ty)
    if t[0] == '!':
        return Val('meta', t, ty)
    if t in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'sub', 'add'):
        op = t
        flags = []
        while p.peek() in ('inbounds', 'nuw', 'nsw', 'inrange'):
            flags.append(p.next())
        p.expect('(')
        if op == 'getelementptr':
            sty = parse_type(p)
            p.expect(',')
            args = []
            while True:
                p.accept('inrange')
                at = parse_type(p)
                args.append(parse_value(p, at))
                if p.accept(')'):
                    break
                p.expect(',')
            return Val('ce', 'gep', ty, (sty, args))
        if op in ('sub', 'add'):
            a = parse_value(p, parse_type(p))
            p.expect(',')
            b = parse_value(p, parse_type(p))
            p.expect(')')
            return Val('ce', op, ty, (a, b))
        at = parse_type(p)
        a = parse_value(p, at)
        p.expect('to')
        parse_type(p)
        p.expect(')')
        return Val('ce', op, ty, a)
    if t in ('{', '[', '<', '<{'):
        close = {'{': '}', '[': ']', '<': '>', '<{': '}>'}[t]
        es = []
        if not p.accept(close):
            while True:
                et = parse_type(p)
                es.append(parse_value(p, et))
                if p.accept(close):
                    break
                p.expect(',')
        return Val('agg', es, ty)
    if re.fullmatch(r'-?[0-9]+\.[0-9e+-]+|0x[0-9A-Fa-f]+', t):
        return Val('fp', t, ty)
    if t == 'asm':
        return Val('asm', None, ty)
    raise SyntaxError('value? %s in %s' % (t, ' '.join(p.t)))


def skip_attrs(p):
    while True:
        t = p.peek()
        if t in PARAM_ATTRS:
            p.next()
        elif t in ('align',):
            p.next()
            if p.accept('('):
                p.next()
                p.expect(')')
            else:
                p.next()
        elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range', 'memory',
                   'nofpclass', 'preallocated', 'inalloca', 'byref'):
            p.next()
            d = 0
            while True:
                x = p.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        else:
            return


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'text', 'x', 'flags')

    def __init__(self, op, res, text):
        self.op, self.res, self.text = op, res, text
        self.ty = None
        self.a = None
        self.x = None
        self.flags = ()

    def __repr__(self):
        return self.text.strip()


BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem', 'fadd',
          'fsub', 'fmul', 'fdiv'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext',
         'fptrunc', 'freeze'}


def parse_inst(text):
    p = P(toks(text))
    res = None
    if p.peek() and p.peek()[0] == '%' and p.peek(1) == '=':
        res = p.next()[1:].strip('"')
        p.expect('=')
    op = p.next()
    I = Inst(op, res, text)
    if op in ('tail', 'musttail', 'notail'):
        op = I.op = p.next()
    if op in BINOPS:
        fl = []
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
                           'reassoc'):
            fl.append(p.next())
        I.flags = tuple(fl)
        I.ty = parse_type(p)
        a = parse_value(p, I.ty)
        p.expect(',')
        b = parse_value(p, I.ty)
        I.a = (a, b)
    elif op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = parse_type(p)
        a = parse_value(p, t)
        if op == 'freeze':
            I.ty = t
        else:
            p.expect('to')
            I.ty = parse_type(p)
        I.a = (a,)
    elif op == 'icmp' or op == 'fcmp':
        while p.peek() in ('samesign', 'fast', 'nnan'):
            p.next()
        I.x = p.next()
        t = parse_type(p)
        a = parse_value(p, t)
        p.expect(',')
        b = parse_value(p, t)
        I.ty = Ty('int', 1)
        I.a = (a, b)
    elif op == 'load':
        p.accept('volatile')
        if p.accept('atomic'):
            I.flags = ('atomic',)
        I.ty = parse_type(p)
        p.expect(',')
        I.a = (parse_value(p, parse_type(p)),)
    elif op == 'store':
        p.accept('volatile')
        p.accept('atomic')
        t = parse_type(p)
        v = parse_value(p, t)
        p.expect(',')
        q = parse_value(p, parse_type(p))
        I.a = (v, q)
        I.ty = t
    elif op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        I.x = parse_type(p)
        args = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            t = parse_type(p)
            args.append(parse_value(p, t))
        I.a = tuple(args)
        I.ty = PTR
    elif op == 'alloca':
        p.accept('inalloca')
        I.x = parse_type(p)
        I.a = ()
        if p.accept(',') and p.peek() != 'align':
            if p.peek()[0] != '!':
                t = parse_type(p)
                I.a = (parse_value(p, t),)
        m = re.search(r'align (\d+)', text)
        I.flags = (int(m.group(1)) if m else 1,)
        I.ty = PTR
    elif op == 'br':
        if p.accept('label'):
            I.a = ()
            I.x = (p.next()[1:].strip('"'),)
        else:
            t = parse_type(p)
            c = parse_value(p, t)
            p.expect(',')
            p.expect('label')
            l1 = p.next()[1:].strip('"')
            p.expect(',')
            p.expect('label')
            l2 = p.next()[1:].strip('"')
            I.a = (c,)
            I.x = (l1, l2)
    elif op == 'switch':
        t = parse_type(p)
        v = parse_value(p, t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = parse_type(p)
            cv = parse_value(p, ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv.v, p.next()[1:].strip('"')))
        I.a = (v,)
        I.x = (d, cases)
    elif op == 'ret':
        t = parse_type(p)
        I.ty = t
        I.a = () if t.k == 'void' else (parse_value(p, t),)
    elif op == 'phi':
        I.ty = parse_type(p)
        inc = []
        while True:
            p.expect('[')
            v = parse_value(p, I.ty)
            p.expect(',')
            inc.append((v, p.next()[1:].strip('"')))
            p.expect(']')
            if not p.accept(','):
                break
        I.x = inc
    elif op == 'select':
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz'):
            p.next()
        t = parse_type(p)
        c = parse_value(p, t)
        p.expect(',')
        t1 = parse_type(p)
        a = parse_value(p, t1)
        p.expect(',')
        b = parse_value(p, parse_type(p))
        I.a = (c, a, b)
        I.ty = t1
    elif op in ('call', 'invoke'):
        while p.peek() in RET_PREFIX or p.peek() in ('fast', 'nnan', 'ninf', 'nsz'):
            p.next()
        skip_attrs(p)
        I.ty = parse_type(p)
        if p.peek() == 'asm':
            I.x = ('asm', None, None, None)
            return I
        callee = parse_value(p, PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = parse_type(p)
                if t.k == 'metadata':
                    # metadata operand
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        d += (x == '(') - (x == ')')
                    args.append(Val('meta', None, t))
                else:
                    skip_attrs(p)
                    args.append(parse_value(p, t))
                if p.accept(')'):
                    break
                p.expect(',')
        nl = ul = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.expect('to')
            p.expect('label')
            nl = p.next()[1:].strip('"')
            p.expect('unwind')
            p.expect('label')
            ul = p.next()[1:].strip('"')
        I.a = tuple(args)
        I.x = (callee, nl, ul)
    elif op == 'extractvalue':
        t = parse_type(p)
        v = parse_value(p, t)
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        I.a = (v,)
        I.x = idx
        I.ty = t
    elif op == 'insertvalue':
        t = parse_type(p)
        v = parse_value(p, t)
        p.expect(',')
        w = parse_value(p, parse_type(p))
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        I.a = (v, w)
        I.x = idx
        I.ty = t
    elif op == 'landingpad':
        I.ty = parse_type(p)
        clauses = []
        cleanup = False
        while p.peek():
            t = p.next()
            if t == 'cleanup':
                cleanup = True
            elif t == 'catch':
                ct = parse_type(p)
                clauses.append(('catch', parse_value(p, ct)))
            elif t == 'filter':
                ct = parse_type(p)
                clauses.append(('filter', parse_value(p, ct)))
            else:
                break
        I.x = (cleanup, clauses)
    elif op == 'resume':
        t = parse_type(p)
        I.a = (parse_value(p, t),)
    elif op in ('unreachable', 'fence'):
        pass
    elif op in ('cmpxchg', 'atomicrmw', 'fneg', 'va_arg', 'extractelement', 'insertelement', 'shufflevector'):
        I.x = 'unsupported'
    else:
        raise SyntaxError('inst? ' + text)
    return I


class Func:
    def __init__(self, name, rty, params, lines, vararg):
        self.name, self.rty, self.params, self.vararg = name, rty, params, vararg
        self.lines = lines
        self._blocks = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        nparam = sum(1 for n, t in self.params)
        blocks, order = {}, []
        cur = None
        joined = []
        inswitch = False
        for l in self.lines:
            if not l.strip():
                continue
            if l[0] not in ' \t' or re.match(r'^[-a-zA-Z$._0-9"]+:', l):
                joined.append(l)
                continue
            if inswitch:
                joined[-1] += ' ' + l.strip()
                if l.strip().startswith(']'):
                    inswitch = False
                continue
            if l.startswith('   ') and joined and not re.match(r'^[-a-zA-Z$._0-9"]+:', joined[-1]):
                joined[-1] += ' ' + l.strip()
            else:
                joined.append(l)
                if re.match(r'\s+switch ', l) and not l.rstrip().endswith(']'):
                    inswitch = True
        # name of implicit entry block: the first unnamed number after params
        cnt = 0
        for n, t in self.params:
            if re.fullmatch(r'\d+', n):
                cnt = max(cnt, int(n) + 1)
        entry = str(cnt)
        for l in joined:
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
            if m and l[0] not in ' \t':
                cur = m.group(1).strip('"')
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = entry
                blocks[cur] = []
                order.append(cur)
            t = l.split(', !')[0] if ' switch ' not in l else l
            # strip metadata suffixes
            t = re.sub(r'(, ![a-z.A-Z_]+ ![0-9]+)+\s*$', '', l)
            blocks[cur].append(parse_inst(t))
        self._blocks, self.order = blocks, order
        self.entry = order[0]
        self._loops()

    def succs(self, b):
        t = self._blocks[b][-1]
        if t.op == 'br':
            return list(t.x)
        if t.op == 'switch':
            return [t.x[0]] + [l for _, l in t.x[1]]
        if t.op == 'invoke':
            return [t.x[1], t.x[2]]
        return []

    def _loops(self):
        """natural loops (headers via DFS back edges with dominance)"""
        order, seen = [], set()
        stack = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        dom = {b: None for b in rpo}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[q] for q in preds[b] if dom[q] is not None]
                new = set.intersection(*ps) | {b} if ps else {b}
                if new != dom[b]:
                    dom[b] = new
                    ch = True
        self.loops = {}
        for b in rpo:
            for s in self.succs(b):
                if s in dom[b]:  # back edge b->s
                    body = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(preds[x])
        self.irreducible = any(idx[s] <= idx[b] and s not in dom[b] for b in rpo for s in self.succs(b))


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}   # name -> (ty, init Val or None, const flag)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self._glines = {}
        cur = None
        for l in text.split('\n'):
            if cur is not None:
                if l.startswith('}'):
                    self._mkfunc(cur[0], cur[1:])
                    cur = None
                else:
                    cur.append(l)
                continue
            if l.startswith('define'):
                cur = [l]
            elif l.startswith('declare'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = type (.*)$', l)
                self.types[m.group(1).strip('"')] = parse_type(P(toks(m.group(2))))
            elif l.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
                self._glines[m.group(1).strip('"')] = m.group(2)
        self._usecache = {}
        self.text = text

    def _mkfunc(self, head, lines):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', head)
        name = m.group(1).strip('"')
        p = P(toks(head))
        p.expect('define')
        while True:
            t = p.peek()
            if t in RET_PREFIX:
                p.next()
            else:
                break
        skip_attrs(p)
        rty = parse_type(p)
        p.next()  # name
        p.expect('(')
        params = []
        vararg = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    vararg = True
                    p.expect(')')
                    break
                t = parse_type(p)
                skip_attrs(p)
                n = p.next()
                params.append((n[1:].strip('"'), t))
                if p.accept(')'):
                    break
                p.expect(',')
        self.funcs[name] = Func(name, rty, params, lines, vararg)

    def glob(self, name):
        """(type, init or None, is_constant)"""
        if name in self.globals:
            return self.globals[name]
        l = self._glines.get(name)
        if l is None:
            return None
        if ' alias ' in ' ' + l:
            m = re.search(r'alias .*, ptr @("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', l)
            if m:
                self.globals[name] = ('alias', m.group(1).strip('"'), True)
                return self.globals[name]
        l = re.sub(r', (comdat|align|section|!).*$', '', l)
        p = P(toks(l))
        ext = False
        const = False
        while True:
            t = p.peek()
            if t in RET_PREFIX:
                if t in ('external', 'extern_weak'):
                    ext = True
                if t == 'constant':
                    const = True
                p.next()
                if t in ('constant', 'global'):
                    break
                if t == 'thread_local' and p.accept('('):
                    while p.next() != ')':
                        pass
            elif t == 'addrspace':
                p.next(); p.next(); p.next(); p.next()
            else:
                break
        ty = parse_type(p)
        init = None
        if not ext and p.peek() is not None:
            init = parse_value(p, ty)
        self.globals[name] = (ty, init, const)
        return self.globals[name]

    def global_readonly(self, name):
        """True when every use of @name in the module is as address of a load."""
        g = self.glob(name)
        if g and g[2] is True and g[0] != 'alias':
            return True
        if name in self._usecache:
            return self._usecache[name]
        q = re.escape(name)
        pat = re.compile(r'@"?' + q + r'"?(?![-a-zA-Z$._0-9])')
        ok = True
        for f in self.funcs.values():
            for l in f.lines:
                if pat.search(l):
                    if not re.search(r'= load [^,]+, ptr @"?' + q + r'"?(?![-a-zA-Z$._0-9])', l):
                        ok = False
        for n, l in self._glines.items():
            if n != name and pat.search(l):
                ok = False
        self._usecache[name] = ok
        return ok

    def resolve(self, ty):
        while ty.k == 'named':
            ty = self.types[ty.name]
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int':
            n = ty.n
            return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        if ty.k in ('ptr', 'double'):
            return 8
        if ty.k == 'float':
            return 4
        if ty.k in ('x86_fp80', 'fp128'):
            return 16
        if ty.k in ('array', 'vector'):
            return self.align(ty.e)
        if ty.k == 'struct':
            return 1 if ty.n else max([self.align(e) for e in ty.e] or [1])
        raise ValueError(ty.k)

    def size(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int':
            a = self.align(ty)
            return (((ty.n + 7) // 8) + a - 1) // a * a
        if ty.k in ('ptr', 'double'):
            return 8
        if ty.k == 'float':
            return 4
        if ty.k in ('x86_fp80', 'fp128'):
            return 16
        if ty.k in ('array', 'vector'):
            return ty.n * self.size(ty.e)
        if ty.k == 'struct':
            off = 0
            for e in ty.e:
                a = 1 if ty.n else self.align(e)
                off = (off + a - 1) // a * a + self.size(e)
            a = self.align(ty)
            return (off + a - 1) // a * a
        raise ValueError(ty.k)

    def field(self, ty, i):
        """(offset, type) of field i of struct type"""
        ty = self.resolve(ty)
        off = 0
        for k, e in enumerate(ty.e):
            a = 1 if ty.n else self.align(e)
            off = (off + a - 1) // a * a
            if k == i:
                return off, e
            off += self.size(e)
        raise IndexError(i)


_dm = {}


def demangle_all(names):
    names = [n for n in names if n not in _dm]
    if names:
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(names, out):
            _dm[n] = d
    return _dm


def demangle(n):
    if n not in _dm:
        demangle_all([n])
    return _dm[n]
