"""Contract-based verification-condition generator over LLVM IR.

Path-splitting symbolic execution of one function at a time.  Calls to
functions that carry a contract are replaced by the contract; calls to other
functions defined in the module are executed in place; calls to anything else
need a trusted (assumed) contract.  Loops are cut at their header by inductive
invariants (Houdini over candidate templates), or unrolled completely when the
trip count is a constant.  Every proof obligation goes to an SMT solver.
"""
import os
import re, time, z3
from .ir import Val, Ty, demangle, PTR
from .vals import Lin, IV, BV, B1, Ptr, Fn, Undef, Agg, Opaque, NULL, I, FA


class Unsupported(Exception):
    pass


class PathLimit(Unsupported):
    pass


class Region:
    """static facts about an object"""
    __slots__ = ('rid', 'name', 'size', 'stride', 'base', 'kind', 'init', 'ty', 'fresh', 'const', 'align', 'header')

    def __init__(self, rid, name, size, stride, kind, init, fresh, ty=None, align=16):
        self.rid, self.name, self.size, self.stride = rid, name, Lin.of(size), stride
        self.kind, self.init, self.ty, self.fresh = kind, init, ty, fresh
        self.base = z3.Int('base!%s!%d' % (name, rid))
        self.const = False
        self.align = align
        self.header = None      # fields below this offset, bytes from it on


class RS:
    """dynamic contents of an object (immutable by convention; copy then write)"""
    __slots__ = ('alive', 'cells', 'arrs')

    def __init__(self, alive=True, cells=None, arrs=None):
        self.alive, self.cells, self.arrs = alive, cells or {}, arrs or {}

    def copy(self):
        return RS(self.alive, dict(self.cells), dict(self.arrs))


class State:
    __slots__ = ('pc', 'q', 'mem', 'g', 'depth')

    def __init__(self):
        self.pc = []      # quantifier-free facts
        self.q = []       # quantified facts
        self.mem = {}
        self.g = {}       # ghost state
        self.depth = 0

    def clone(self):
        s = State()
        s.pc = list(self.pc)
        s.q = list(self.q)
        s.mem = dict(self.mem)
        s.g = dict(self.g)
        s.depth = self.depth
        return s

    def assume(self, *fs):
        for f in fs:
            if f is True or (not isinstance(f, bool) and z3.is_true(f)):
                continue
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            if has_quant(f):
                if z3.is_and(f):
                    for c in f.children():
                        self.assume(c)
                    continue
                self.q.append(f)
            else:
                self.pc.append(f)


_sp = {}


def _selpat(q):
    """id of the array A when q is forall x. body with pattern A[x]"""
    k = q.get_id()
    r = _sp.get(k)
    if r is not None and r[1].eq(q):
        return r[0]
    b = None
    if z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1 and q.var_sort(0) == I:
        for i in range(q.num_patterns()):
            p = q.pattern(i)
            if p.num_args() == 1:
                p = p.arg(0)
                if z3.is_select(p) and z3.is_var(p.arg(1)) and z3.is_const(p.arg(0)):
                    b = p.arg(0).get_id()
    _sp[k] = (b, q)
    return b


_hq = {}


def has_quant(f):
    k = f.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    res = False
    seen = {}
    st = [f]
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            res = True
            break
        i = x.get_id()
        if i in seen or i in _plain:
            continue
        seen[i] = x
        st.extend(x.children())
    if not res:
        if len(_plain) > 500000:
            _plain.clear()
        _plain.update(seen)     # referenced: the identifiers are not used again
    _hq[k] = (f, res)
    return res


_plain = {}


class Outcome:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


DEBUG = bool(os.environ.get('ENIV_DEBUG'))


class ObList(list):
    """obligations generated so far; reports the first that fails"""
    on_fail = None

    def append(self, o):
        list.append(self, o)
        if not o.ok and self.on_fail:
            self.on_fail(o)


class Ob:
    """one proof obligation and its verdict"""
    __slots__ = ('unit', 'name', 'tag', 'where', 'ok', 'how', 'secs', 'model', 'backend')

    def __init__(self, unit, name, tag, where, ok, how, secs, model=None, backend='z3'):
        self.unit, self.name, self.tag, self.where = unit, name, tag, where
        self.ok, self.how, self.secs, self.model, self.backend = ok, how, secs, model, backend


def zbool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zand(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def zor(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def znot(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def zimp(a, b):
    return zor(znot(a), b)


def zite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return z3.If(c, a, b)


class Prover:
    """incremental solver for feasibility and quantifier-free goals; one-shot
    solvers for quantified goals"""

    def __init__(self):
        self.s = z3.Solver()
        self.s.set('timeout', 4000)
        self.cur = []
        self.calls = 0
        self.secs = 0.0
        self.feas_ms = 500
        self.qf_ms = 5000
        self.q_ms = 20000
        self.second = None
        self.also = ()            # further solver settings to try before giving up quickly

    def sync(self, pc):
        n = 0
        cur = self.cur
        m = min(len(cur), len(pc))
        while n < m and cur[n] is pc[n]:
            n += 1
        if len(cur) > n:
            self.s.pop(len(cur) - n)
            del cur[n:]
        for f in pc[n:]:
            self.s.push()
            self.s.add(f)
            cur.append(f)

    def sat(self, pc, f, ms, want=True):
        self.sync(pc)
        t = time.time()
        self.s.push()
        self.s.set('timeout', ms)
        self.s.add(f)
        r = self.s.check()
        m = None
        if r == z3.sat and want:
            m = self.s.model()
        self.s.pop()
        self.calls += 1
        self.secs += time.time() - t
        return r, m

    def feasible(self, st, f):
        if isinstance(f, bool):
            return f
        r, _ = self.sat(st.pc, f, self.feas_ms, False)
        return r != z3.unsat

    def valid_quick(self, st, f, ms=1000):
        if isinstance(f, bool):
            return f
        r, _ = self.sat(st.pc, z3.Not(f), ms, False)
        return r == z3.unsat

    def prove(self, st, f, ms=None, quick=False):
        """(status, how, model): status in proved/refuted/unknown"""
        if isinstance(f, bool):
            if f:
                return 'proved', 'trivial', None
            f = z3.BoolVal(False)
        ng = z3.Not(f)
        m = None
        if not has_quant(f):
            r, m = self.sat(st.pc, ng, ms or self.qf_ms, not quick)
            if r == z3.unsat:
                return 'proved', 'qf', None
            if r == z3.sat and not st.q:
                return 'refuted', 'model', m
            if r == z3.unknown and not st.q:
                r2 = self.oneshot(st.pc, ng, ms or self.q_ms)
                if r2[0] == z3.unsat:
                    return 'proved', 'qf-oneshot', None
                if r2[0] == z3.sat:
                    return 'refuted', 'model', r2[1]
                return 'unknown', 'timeout', None
        r, m2 = self.oneshot(st.pc + st.q, ng, ms or self.q_ms, quick)
        if r == z3.unsat:
            return 'proved', 'quant', None
        if r == z3.sat:
            return 'refuted', 'model', m2
        return 'unknown', 'no proof (%s)' % ('quantified' if st.q else 'timeout'), m

    def oneshot(self, fs, ng, ms, quick=False):
        t = time.time()
        best = (z3.unknown, None)
        quickly = ({'smt.mbqi': False, 'smt.auto_config': False, 'smt.solve_eqs': False},) + self.also
        for opts in quickly + (() if quick else ({'smt.mbqi': True, 'smt.auto_config': False, 'smt.solve_eqs': False}, {})):
            s = z3.Solver()
            s.set('timeout', min(ms, 500) if 'smt.relevancy' in opts else ms if not opts else min(ms, 6000))
            for k, v in opts.items():
                s.set(k, v)
            s.add(*fs)
            s.add(ng)
            r = s.check()
            self.calls += 1
            if r == z3.unsat:
                best = (r, None)
                break
            if r == z3.sat and not opts:
                best = (r, s.model())
        self.secs += time.time() - t
        return best


class LoopVar:
    __slots__ = ('name', 'kind', 'get', 'w', 'rid', 'entry', 'stride')

    def __init__(self, name, kind, get, w=None, rid=None, stride=1):
        self.name, self.kind, self.get, self.w, self.rid, self.stride = name, kind, get, w, rid, stride


class LoopInfo:
    pass


class Engine:
    def __init__(self, module, unit, mode='int'):
        self.m = module
        self.unit = unit
        self.mode = mode
        self.P = Prover()
        self.regions = {}
        self.nreg = 0
        self.nsym = 0
        self.silent = 0
        self.obs = ObList()
        self.contracts = {}       # demangled name -> contract object
        self.lib = []             # list of (predicate, handler)
        self.inlined = set()
        self.trusted_used = set()
        self.contracts_used = set()
        self.loops_seen = {}
        self.cand_gens = []
        self.max_inline = 60
        self.paths = 0
        self.path_limit = 20000
        self.unroll_max = 70
        self.where = []
        self.globmem = {}
        self.notes = []
        self.hooks = {}
        self.deadline = None
        self.on_raw = None        # handler for dereference of abstract pointers
        self.fail_fast = False
        self.initcache = {}
        self.instcache = {}
        self.check_nsw = True
        self.fam = {}
        self.tokens = []          # enclosing loops whose invariants are being inferred
        self.forking = False      # a load may be split into cases here
        self.alts = {}            # symbol -> objects a loop-carried pointer variable may refer to

    # ------------------------------------------------------------ symbols
    def sym(self, name):
        self.nsym += 1
        return '%s!%d' % (name, self.nsym)

    def fresh_int(self, name='k'):
        return z3.Int(self.sym(name))

    def fresh_iv(self, st, w, name='x'):
        if self.mode == 'bv' :
            return BV(w, z3.BitVec(self.sym(name), w))
        x = self.fresh_int(name)
        st.assume(x >= 0, x < 2 ** w)
        return IV(w, x, 0, 2 ** w - 1)

    def fresh_bool(self, name='b'):
        return z3.Bool(self.sym(name))

    def fresh_like(self, st, v, name='h'):
        if isinstance(v, IV):
            if self.mode == 'bv':
                return BV(v.w, z3.BitVec(self.sym(name), v.w))
            return self.fresh_iv(st, v.w, name)
        if isinstance(v, BV):
            return BV(v.w, z3.BitVec(self.sym(name), v.w))
        if isinstance(v, B1):
            return B1(self.fresh_bool(name))
        if isinstance(v, Ptr):
            if v.base is None:
                return Ptr(None, self.fresh_int(name))
            r = self.regions[v.base]
            k = self.fresh_int(name)
            return Ptr(v.base, v.off + Lin.of(k).scale(r.stride or 1))
        if isinstance(v, Undef):
            return v
        if isinstance(v, Agg):
            return Agg([self.fresh_like(st, e, name) for e in v.e])
        if isinstance(v, Opaque):
            return Opaque()
        if isinstance(v, z3.ExprRef):
            return z3.Const(self.sym(name), v.sort())
        raise Unsupported('fresh_like %r' % (v,))

    # ------------------------------------------------------------ regions
    def new_region(self, st, name, size, stride=None, kind='obj', init='sym', fresh=False, ty=None, cells=None,
                   arrs=None, align=16):
        self.nreg += 1
        r = Region(self.nreg, name, size, stride, kind, init, fresh, ty, align)
        self.regions[r.rid] = r
        st.mem[r.rid] = RS(True, cells, arrs)
        st.pc.append(r.base >= 65536)
        return r

    def is_heap_kind(self, k):
        return k in ('malloc', 'new', 'new[]')

    def enc(self, p):
        """pointer -> Lin address"""
        if isinstance(p, Ptr):
            if p.base is None:
                return p.off
            return p.off + Lin.of(self.regions[p.base].base)
        if isinstance(p, Fn):
            return Lin.of(z3.Int('fn!' + p.name))
        if isinstance(p, Undef):
            return Lin.of(self.fresh_int('undefptr'))
        raise Unsupported('enc %r' % (p,))

    def dec(self, lin):
        lin = Lin.of(lin)
        for k, (t, n) in lin.d.items():
            if n == 1 and z3.is_const(t):
                nm = t.decl().name()
                if nm.startswith('base!'):
                    rid = int(nm.rsplit('!', 1)[1])
                    if rid in self.regions:
                        return Ptr(rid, lin - Lin({k: (t, 1)}, 0))
                if nm.startswith('fn!') and len(lin.d) == 1 and lin.c == 0:
                    return Fn(nm[3:])
        return Ptr(None, lin)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, f, name, tag='safety', where=None, ms=None):
        """prove f in st (or, while searching for loop invariants, assume it)"""
        if f is True or (not isinstance(f, bool) and z3.is_true(f)):
            if not self.silent:
                self.obs.append(Ob(self.unit, name, tag, where or self.loc(), True, 'trivial', 0.0))
            return True
        if self.silent:
            st.assume(f)
            return True
        t = time.time()
        status, how, model = self.P.prove(st, f, ms)
        ok = status == 'proved'
        ob = Ob(self.unit, name, tag, where or self.loc(), ok, how if ok else status + ': ' + how, time.time() - t,
                self.model_str(model) if model is not None and not ok else None)
        self.obs.append(ob)
        if not ok and self.fail_fast:
            raise StopIteration
        st.assume(f)
        return ok

    def model_str(self, m):
        try:
            ds = []
            for d in m.decls():
                if d.arity() == 0 and not d.name().startswith('base!'):
                    ds.append('%s=%s' % (d.name(), str(m[d])[:80]))
            return '; '.join(sorted(ds)[:60])
        except Exception as e:
            return str(e)

    def loc(self):
        return ' > '.join(self.where[-2:])

    # ------------------------------------------------------------ integer views
    def u(self, st, v):
        """canonical unsigned Lin of v"""
        if isinstance(v, B1):
            t = v.t
            if isinstance(t, bool):
                return Lin(None, 1 if t else 0)
            return Lin.of(z3.If(t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, BV):
            return Lin.of(z3.BV2Int(v.t))
        if isinstance(v, Undef):
            return Lin.of(self.fresh_iv(st, v.ty.n if v.ty else 64, 'undef').lin)
        w = v.w
        M = 2 ** w
        if v.lin.is_const():
            return Lin(None, v.lin.c % M)
        if v.lo is not None and v.hi is not None:
            if v.lo >= 0 and v.hi < M:
                return v.lin
            if v.lo >= -M and v.hi < M:
                t = v.lin.z
                lt = self.decide(st, t < 0)
                if lt is False:
                    return v.lin
                if lt is True:
                    return v.lin + M
                return Lin.of(z3.If(t < 0, t + M, t))
        t = v.lin.z
        if self.P.valid_quick(st, z3.And(t >= 0, t < M)):
            return v.lin
        if self.P.valid_quick(st, z3.And(t >= M, t < 2 * M)):
            return v.lin - M
        if self.P.valid_quick(st, z3.And(t >= -M, t < 0)):
            return v.lin + M
        if self.P.valid_quick(st, z3.And(t >= 0, t < 2 * M)):
            return Lin.of(z3.If(t >= M, t - M, t))
        return Lin.of(t % M)

    def decide(self, st, f):
        """True/False when f is determined by the path condition, else None"""
        if isinstance(f, bool):
            return f
        if self.P.valid_quick(st, f, 500):
            return True
        if self.P.valid_quick(st, z3.Not(f), 500):
            return False
        return None

    def s(self, st, v):
        """canonical signed Lin of v"""
        if isinstance(v, B1):
            return Lin.of(zite(v.t, z3.IntVal(-1), z3.IntVal(0))) if not isinstance(v.t, bool) else Lin(None,
                                                                                                      -1 if v.t else 0)
        if isinstance(v, Undef):
            v = self.fresh_iv(st, v.ty.n if v.ty else 64, 'undef')
        if isinstance(v, BV):
            return Lin.of(z3.BV2Int(v.t, True))
        w = v.w
        M, Hf = 2 ** w, 2 ** (w - 1)
        if v.lin.is_const():
            c = v.lin.c % M
            return Lin(None, c - M if c >= Hf else c)
        if v.lo is not None and v.hi is not None and v.lo >= -Hf and v.hi < Hf:
            return v.lin
        t = v.lin.z
        if self.P.valid_quick(st, z3.And(t >= -Hf, t < Hf)):
            return v.lin
        if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi < M:
            if self.P.valid_quick(st, t >= Hf):
                return v.lin - M
            return Lin.of(z3.If(t >= Hf, t - M, t))
        ul = self.u(st, v)
        t = ul.z
        if self.P.valid_quick(st, t < Hf):
            return ul
        return Lin.of(z3.If(t >= Hf, t - M, t))

    def ui(self, st, v):
        """unsigned z3 Int"""
        return self.u(st, v).z

    def as_int(self, st, v, ty):
        if isinstance(v, Undef):
            return self.fresh_iv(st, ty.n, 'undef')
        return v

    # ------------------------------------------------------------ memory
    def rs_w(self, st, rid):
        r = st.mem[rid].copy()
        st.mem[rid] = r
        return r

    def arr_sort(self, bits):
        return z3.BitVecSort(bits) if self.mode == 'bv' else I

    def init_arr(self, r, key):
        k = (r.rid, key)
        if k not in self.initcache:
            srt = self.arr_sort(8 * key[1]) if key[2] == 'i' else I
            if r.init == 'zero':
                z = z3.IntVal(0) if srt == I else z3.BitVecVal(0, 8 * key[1])
                self.initcache[k] = z3.K(I, z)
            else:
                self.initcache[k] = z3.Const('arr!%s!%d!%d.%d' % (r.name, r.rid, key[0], key[1]), z3.ArraySort(I, srt))
        return self.initcache[k]

    def get_arr(self, st, rid, key):
        rs = st.mem[rid]
        a = rs.arrs.get(key)
        if a is None:
            a = self.init_arr(self.regions[rid], key)
        return a

    def tykey(self, ty):
        ty = self.m.resolve(ty) if ty.k == 'named' else ty
        if ty.k == 'int':
            return ('i', max(1, (ty.n + 7) // 8), ty.n)
        if ty.k == 'ptr':
            return ('p', 8, 64)
        return ('o', self.m.size(ty), 0)

    def to_term(self, st, v, ty):
        k, sz, bits = self.tykey(ty)
        if k == 'p':
            return self.enc(v).z
        if k == 'i':
            if self.mode == 'bv':
                return self.bv(st, v, 8 * sz)
            if isinstance(v, Undef):
                return self.fresh_iv(st, bits, 'undef').lin.z
            return self.u(st, v).z
        raise Unsupported('array element of type %r' % ty)

    def from_term(self, st, t, ty):
        k, sz, bits = self.tykey(ty)
        if k == 'p':
            t = z3.simplify(t) if z3.is_select(t) else t
            return self.dec(t)
        if self.mode == 'bv':
            return BV(bits, z3.simplify(t) if bits == 8 * sz else z3.Extract(bits - 1, 0, t))
        if z3.is_int_value(t):
            return IV(bits, t.as_long())
        st.assume(t >= 0, t < 2 ** bits)
        return IV(bits, t, 0, 2 ** bits - 1)

    def size_of(self, st, r):
        if r.kind == 'str':
            return Lin.of(st.g[('n', r.rid)]) + 1
        if r.kind == 'vec':
            return Lin.of(st.g[('n', r.rid)]).scale(r.stride)
        return r.size

    def bounds(self, st, p, sz, what):
        if p.base is None:
            raise Unsupported('raw deref')
        r = self.regions[p.base]
        rs = st.mem.get(p.base)
        if rs is None or not rs.alive:
            self.oblige(st, False, '%s of %s after its lifetime' % (what, r.name))
            return
        szl = Lin.of(sz)
        lo = p.off
        hi = self.size_of(st, r) - p.off - szl
        c = []
        if not (lo.is_const() and lo.c >= 0):
            c.append(lo.z >= 0)
        if not (hi.is_const() and hi.c >= 0):
            c.append(hi.z >= 0)
        if any(x.is_const() and x.c < 0 for x in (lo, hi)):
            self.oblige(st, False, '%s within the bounds of %s' % (what, r.name))
            return
        if c:
            self.oblige(st, z3.And(*c) if len(c) > 1 else c[0], '%s within the bounds of %s' % (what, r.name))
        else:
            self.oblige(st, True, '%s within the bounds of %s' % (what, r.name))

    def locate(self, st, p, sz):
        """('cell', off) or ('arr', idx Lin, fieldoff)"""
        r = self.regions[p.base]
        if r.header is not None:
            if p.off.is_const() and p.off.c + sz <= r.header:
                return ('cell', p.off.c)
            if sz != 1:
                raise Unsupported('wide access among the bytes of %s' % r.name)
            self.tail(st, r, p)
            return ('arr', p.off, 0)
        if p.off.is_const() and (not r.stride or self.cellmode(st, r)):
            return ('cell', p.off.c)
        if not r.stride:
            g = 0
            import math
            for _, (t, n) in p.off.d.items():
                g = math.gcd(g, abs(n))
            r.stride = max(g, sz) if g else sz
        if self.cellmode(st, r):
            self.to_arrays(st, r)
        s = r.stride
        off = p.off
        fo = off.c % s
        base = off - fo
        if not base.divisible(s):
            # try to decide the phase with the solver
            t = off.z
            raise Unsupported('offset %s not a multiple of %d in %s' % (off.z, s, r.name))
        return ('arr', base.exact_div(s), fo)

    def tail(self, st, r, p):
        """p points into the bytes behind the fields of r"""
        if r.header is None:
            return
        if not p.off.is_const():
            if not self.P.valid_quick(st, p.off.z >= r.header):
                raise Unsupported('bytes and fields of %s' % r.name)
        elif p.off.c < r.header:
            if any(o + c[0] > p.off.c for o, c in st.mem[r.rid].cells.items()):
                raise Unsupported('fields of %s as bytes' % r.name)
            r.header = p.off.c

    def cellmode(self, st, r):
        rs = st.mem[r.rid]
        if r.header is not None:
            return False
        if rs.arrs:
            return False
        if r.ty == 'arr':
            return False
        return r.size.is_const()

    def to_arrays(self, st, r):
        rs = self.rs_w(st, r.rid)
        s = r.stride
        for off, (sz, v, ty) in sorted(rs.cells.items()):
            k = (off % s, sz, self.tykey(ty)[0])
            if off % s + sz > s:
                raise Unsupported('cell straddles elements in %s' % r.name)
            a = rs.arrs.get(k)
            if a is None:
                a = self.init_arr(r, k)
            rs.arrs[k] = z3.Store(a, z3.IntVal(off // s), self.to_term(st, v, ty))
        if not rs.arrs:
            rs.arrs[('used',)] = None
        rs.cells = {}

    def load(self, st, p, ty, what='read'):
        ty = self.m.resolve(ty) if ty.k == 'named' else ty
        if isinstance(p, Undef):
            self.oblige(st, False, '%s through an indeterminate pointer' % what)
            return Undef(ty)
        p = self.settle(st, p)
        if ty.k in ('struct', 'array'):
            if ty.k == 'struct':
                out = []
                for i in range(len(ty.e)):
                    o, e = self.m.field(ty, i)
                    out.append(self.load(st, Ptr(p.base, p.off + o), e))
                return Agg(out)
            raise Unsupported('load array')
        if isinstance(p, Ptr) and p.base is None:
            if self.on_raw:
                return self.on_raw(self, st, p, ty, None)
            self.null_fail(st, p, what)
            return Undef(ty)
        k, sz, bits = self.tykey(ty)
        self.bounds(st, p, sz, what)
        r = self.regions[p.base]
        if 'read' in self.hooks:
            self.hooks['read'](self, st, r)
        if 'read_at' in self.hooks:
            self.hooks['read_at'](self, st, r, p)
        if st.mem.get(p.base) is None or not st.mem[p.base].alive:
            return self.fresh_ty(st, ty)
        if ty.k == 'ptr' and not p.off.is_const() and r.header is None and self.forking and r.size.is_const() and 8 < r.size.c <= 64 and self.cellmode(st, r):
            cs = st.mem[p.base].cells
            if r.kind == 'global' and r.const or cs and all(c[0] == 8 and isinstance(c[1], Ptr) for c in cs.values()):
                # a small table of pointers: one case per entry
                raise NeedFork([(p.off.z == o, self.load_cell(st, r, o, 8, ty)) for o in range(0, r.size.c, 8)])
        where = self.locate(st, p, sz)
        if where[0] == 'cell':
            return self.load_cell(st, r, where[1], sz, ty)
        if k == 'o':
            return Opaque()
        key = (where[2], sz, k)
        rs = st.mem[p.base]
        a = self.get_arr(st, p.base, key)
        t = z3.Select(a, where[1].z)
        ts = z3.simplify(t)
        if self.mode == 'int' and k == 'i' and st.q and not z3.is_int_value(ts):
            self.instantiate(st, a, where[1].z)
        return self.from_term(st, ts, ty)

    def instantiate(self, st, a, idx):
        """ground instances of the quantified facts about array a at position idx"""
        bases = set()
        while True:
            bases.add(a.get_id())
            if a.decl().kind() == z3.Z3_OP_STORE:
                a = a.arg(0)
            else:
                break
        for q in list(st.q):
            b = _selpat(q)
            if b is None or b not in bases:
                continue
            key = (q.get_id(), idx.get_id())
            if key not in self.instcache:
                self.instcache[key] = (z3.simplify(z3.substitute_vars(q.body(), idx)), q, idx)
            f = self.instcache[key][0]
            if has_quant(f) or z3.is_true(f):
                continue
            if not any(f is x for x in st.pc):
                st.pc.append(f)

    def fresh_ty(self, st, ty, name='v'):
        ty = self.m.resolve(ty) if ty.k == 'named' else ty
        if ty.k == 'int':
            if ty.n == 1:
                return B1(self.fresh_bool(name))
            return self.fresh_iv(st, ty.n, name)
        if ty.k == 'ptr':
            return Ptr(None, self.fresh_int(name))
        if ty.k == 'struct':
            return Agg([self.fresh_ty(st, e, name) for e in ty.e])
        return Opaque()

    def null_fail(self, st, p, what):
        if p.off.is_const() or True:
            self.oblige(st, False, '%s through a null or unknown pointer (%s)' % (what, p.off.z))

    def load_cell(self, st, r, off, sz, ty):
        rs = st.mem[r.rid]
        c = rs.cells.get(off)
        if c is not None and c[0] == sz:
            v = c[1]
            if ty.k == 'ptr' and isinstance(v, IV):
                return self.dec(v.lin)
            if ty.k == 'int' and isinstance(v, Ptr):
                return IV(64, self.enc(v))
            if ty.k == 'int' and isinstance(v, B1) and ty.n > 1:
                return IV(ty.n, self.u(st, v), 0, 1)
            if ty.k == 'int' and isinstance(v, IV) and v.w != ty.n:
                return self.cast(st, 'trunc' if v.w > ty.n else 'zext', v, ty)
            return v
        # overlapping cells?
        ov = [(o, x) for o, x in rs.cells.items() if o < off + sz and off < o + x[0]]
        if ov:
            if ty.k == 'int' and self.mode == 'bv':
                # assemble bytes
                bs = []
                for b in range(sz):
                    bs.append(self.byte_at(st, r, off + b))
                t = z3.Concat(*bs[::-1]) if sz > 1 else bs[0]
                return BV(ty.n, z3.simplify(t))
            if ty.k == 'int' and len(ov) == 1 and ov[0][0] <= off and off + sz <= ov[0][0] + ov[0][1][0] and isinstance(
                    ov[0][1][1], IV):
                o, (osz, v, oty) = ov[0]
                t = self.u(st, v)
                sh = 8 * (off - o)
                if t.is_const():
                    return IV(ty.n, (t.c >> sh) % 2 ** ty.n)
                return IV(ty.n, (t.z / 2 ** sh) % 2 ** ty.n, 0, 2 ** ty.n - 1)
            if ty.k == 'int' and all(isinstance(x[1], IV) for _, x in ov):
                tot = Lin(None, 0)
                for b in range(sz):
                    e = self.load_cell(st, r, off + b, 1, Ty('int', 8)) if sz > 1 else None
                    if e is None:
                        raise Unsupported('partial overlap')
                    tot = tot + self.u(st, e).scale(256 ** b)
                return IV(ty.n, tot, 0, 2 ** ty.n - 1)
            raise Unsupported('overlapping read of %s at %d' % (r.name, off))
        if r.init == 'zero':
            v = IV(ty.n, 0) if ty.k == 'int' and self.mode != 'bv' else BV(ty.n, z3.BitVecVal(0, ty.n)) if ty.k == 'int' \
                else NULL if ty.k == 'ptr' else Opaque(0)
            return v
        if ty.k not in ('int', 'ptr'):
            return Opaque()
        key = (r.rid, 'cell', off, sz, ty.k)
        if key not in self.initcache:
            nm = 'init!%s!%d@%d.%d' % (r.name, r.rid, off, sz)
            if ty.k == 'ptr':
                self.initcache[key] = Ptr(None, z3.Int(nm))
            elif self.mode == 'bv':
                self.initcache[key] = BV(ty.n, z3.BitVec(nm, ty.n))
            else:
                self.initcache[key] = IV(ty.n, z3.Int(nm), 0, 2 ** ty.n - 1)
        v = self.initcache[key]
        if isinstance(v, IV):
            st.assume(v.lin.z >= 0, v.lin.z < 2 ** ty.n)
        return v

    def byte_at(self, st, r, off):
        rs = st.mem[r.rid]
        for o, (sz, v, ty) in rs.cells.items():
            if o <= off < o + sz:
                t = self.bv(st, v, 8 * sz)
                k = off - o
                return z3.Extract(8 * k + 7, 8 * k, t)
        v = self.load_cell(st, r, off, 1, Ty('int', 8))
        return v.t

    def store(self, st, p, v, ty, what='write'):
        ty = self.m.resolve(ty) if ty.k == 'named' else ty
        if isinstance(p, Undef):
            self.oblige(st, False, '%s through an indeterminate pointer' % what)
            return
        p = self.settle(st, p)
        if ty.k == 'struct':
            for i in range(len(ty.e)):
                o, e = self.m.field(ty, i)
                self.store(st, Ptr(p.base, p.off + o), v.e[i] if isinstance(v, Agg) else Undef(e), e)
            return
        if isinstance(p, Ptr) and p.base is None:
            if self.on_raw:
                return self.on_raw(self, st, p, ty, v)
            self.null_fail(st, p, what)
            return
        k, sz, bits = self.tykey(ty)
        self.bounds(st, p, sz, what)
        r = self.regions[p.base]
        if st.mem.get(p.base) is None or not st.mem[p.base].alive:
            return
        if r.const:
            self.oblige(st, False, 'write to constant %s' % r.name)
            return
        if r.kind == 'str':
            n = Lin.of(st.g[('n', r.rid)])
            self.oblige(st, zor(p.off.z < n.z, self.u(st, v).z == 0), 'terminator of the string kept')
        where = self.locate(st, p, sz)
        rs = self.rs_w(st, p.base)
        if where[0] == 'cell':
            off = where[1]
            self.kill(st, rs, r, off, sz)
            rs.cells[off] = (sz, v, ty)
            return
        if k == 'o':
            return
        fo = where[2]
        for kk in list(rs.arrs):
            if len(kk) == 3 and kk != (fo, sz, k) and kk[0] < fo + sz and fo < kk[0] + kk[1]:
                raise Unsupported('overlapping array field write in %s' % r.name)
        key = (fo, sz, k)
        a = self.get_arr(st, p.base, key)
        t = self.to_term(st, v, ty)
        rs.arrs[key] = z3.Store(a, where[1].z, t)
        if 'stored' in self.hooks:
            self.hooks['stored'](self, st, r, key, where[1].z, t, a)

    def kill(self, st, rs, r, off, sz):
        for o in [o for o, x in rs.cells.items() if o < off + sz and off < o + x[0]]:
            osz, v, ty = rs.cells[o]
            if o == off and osz == sz:
                del rs.cells[o]
                continue
            del rs.cells[o]
            if off <= o and o + osz <= off + sz:
                continue
            # split remaining bytes
            if isinstance(v, (IV, BV)):
                for b in range(osz):
                    if not (off <= o + b < off + sz):
                        if self.mode == 'bv':
                            t = z3.simplify(z3.Extract(8 * b + 7, 8 * b, self.bv(st, v, 8 * osz)))
                            rs.cells[o + b] = (1, BV(8, t), Ty('int', 8))
                        else:
                            t = self.u(st, v).z
                            rs.cells[o + b] = (1, IV(8, (t / (256 ** b)) % 256, 0, 255), Ty('int', 8))
            else:
                raise Unsupported('partial overwrite in %s' % r.name)

    def memset(self, st, p, byte, n):
        n = Lin.of(n)
        if n.is_const() and n.c == 0:
            return
        if not isinstance(p, Ptr) or p.base is None:
            if self.decide(st, n.z == 0):
                return
            self.null_fail(st, p, 'memset')
            return
        self.bounds(st, p, n, 'memset')
        r = self.regions[p.base]
        if n.is_const() and p.off.is_const() and self.cellmode(st, r):
            rs = self.rs_w(st, p.base)
            bu = byte if isinstance(byte, BV) else self.u(st, byte)
            # overwrite existing cells with same granularity when the fill is constant
            cst = isinstance(bu, Lin) and bu.is_const()
            done = set()
            if cst:
                for o, (sz, v, ty) in list(rs.cells.items()):
                    if p.off.c <= o and o + sz <= p.off.c + n.c:
                        val = 0
                        for i in range(sz):
                            val = val * 256 + bu.c
                        if ty.k == 'ptr' and val == 0:
                            rs.cells[o] = (sz, NULL, ty)
                        elif ty.k == 'int':
                            rs.cells[o] = (sz, self.const_iv(8 * sz, val), Ty('int', 8 * sz))
                        else:
                            del rs.cells[o]
                            continue
                        done.update(range(o, o + sz))
            i = p.off.c
            end = p.off.c + n.c
            while i < end:
                if i in done:
                    i += 1
                    continue
                w = 1
                if cst and i % 8 == 0 and i + 8 <= end and not any(j in done for j in range(i, i + 8)) and r.stride in (
                        None, 8):
                    w = 8
                self.kill(st, rs, r, i, w)
                if cst:
                    val = 0
                    for _ in range(w):
                        val = val * 256 + bu.c
                    if w == 8 and val == 0:
                        rs.cells[i] = (8, self.const_iv(64, 0), Ty('int', 64))
                    else:
                        rs.cells[i] = (w, self.const_iv(8 * w, val), Ty('int', 8 * w))
                else:
                    rs.cells[i] = (1, byte, Ty('int', 8))
                i += w
            return
        if not r.stride:
            r.stride = 1
        if self.cellmode(st, r):
            self.to_arrays(st, r)
        if r.stride != 1:
            raise Unsupported('symbolic memset on %s' % r.name)
        key = (0, 1, 'i')
        a = self.get_arr(st, p.base, key)
        b = z3.Const(self.sym('mset'), a.sort())
        k = z3.Int('k!q')
        lo, hi = p.off.z, (p.off + n).z
        bt = self.to_term(st, byte, Ty('int', 8))
        st.assume(z3.ForAll([k], z3.Select(b, k) == z3.If(z3.And(lo <= k, k < hi), bt, z3.Select(a, k)),
                            patterns=[z3.Select(b, k)]))
        self.rs_w(st, p.base).arrs[key] = b

    def const_iv(self, w, c):
        if self.mode == 'bv':
            return BV(w, z3.BitVecVal(c, w))
        return IV(w, c)

    def memcpy(self, st, d, s, n, what='memcpy'):
        n = Lin.of(n)
        if n.is_const() and n.c == 0:
            return
        if d.base is None or s.base is None:
            if self.on_raw and 'memcpy' in self.hooks:
                return self.hooks['memcpy'](self, st, d, s, n)
            if self.decide(st, n.z == 0):
                return
            self.null_fail(st, d if d.base is None else s, what)
            return
        self.bounds(st, d, n, what + ' destination')
        self.bounds(st, s, n, what + ' source')
        rd, rsrc = self.regions[d.base], self.regions[s.base]
        if not (st.mem[d.base].alive and st.mem[s.base].alive):
            return
        if n.is_const() and d.off.is_const() and s.off.is_const() and self.cellmode(st, rsrc) and self.cellmode(st,
                                                                                                                rd):
            src = st.mem[s.base]
            lo, hi = s.off.c, s.off.c + n.c
            new = []
            covered = set()
            for o, (sz, v, ty) in src.cells.items():
                if lo <= o and o + sz <= hi:
                    new.append((o, sz, v, ty))
                    covered.update(range(o, o + sz))
                elif o < hi and lo < o + sz:
                    raise Unsupported('memcpy splits a cell')
            rest = [i for i in range(lo, hi) if i not in covered]
            if rest:
                if rsrc.init == 'zero' or len(rest) <= 512:
                    i = 0
                    while i < len(rest):
                        w = 1
                        o = rest[i]
                        ty = Ty('int', 8)
                        for cand in (8, 4):
                            if (o - lo) % cand == 0 and o % cand == 0 and i + cand <= len(rest) and rest[i + cand - 1] == o + cand - 1 \
                                    and (rsrc.stride is None or rsrc.stride % cand == 0):
                                w, ty = cand, Ty('int', 8 * cand)
                                break
                        v = self.load_cell(st, rsrc, o, w, ty)
                        new.append((o, w, v, ty))
                        i += w
                else:
                    raise Unsupported('memcpy of uninitialised bytes')
            rs = self.rs_w(st, d.base)
            dl = d.off.c
            for o in [o for o, x in rs.cells.items() if o < dl + n.c and dl < o + x[0]]:
                self.kill(st, rs, rd, o if o >= dl else dl, min(rs.cells[o][0], dl + n.c - o) if o in rs.cells else 1)
            for o in [o for o, x in rs.cells.items() if dl <= o < dl + n.c]:
                del rs.cells[o]
            for o, sz, v, ty in new:
                rs.cells[o - lo + dl] = (sz, v, ty)
            if 'copied_cells' in self.hooks:
                self.hooks['copied_cells'](self, st, d, s, n.c)
            return
        if 'word' in self.hooks and n.is_const() and self.copy_words(st, d, s, n.c):
            return
        # whole-object copy of strided regions
        self.tail(st, rd, d)
        self.tail(st, rsrc, s)
        if self.cellmode(st, rd):
            if not rd.stride:
                rd.stride = rsrc.stride or 1
            self.to_arrays(st, rd)
        if self.cellmode(st, rsrc):
            if not rsrc.stride:
                rsrc.stride = rd.stride or 1
            self.to_arrays(st, rsrc)
        if rd.stride is None:
            rd.stride = rsrc.stride
        if rsrc.stride is None:
            rsrc.stride = rd.stride
        if rd.stride != rsrc.stride or rd.stride is None:
            raise Unsupported('memcpy between %s and %s' % (rd.name, rsrc.name))
        S = rd.stride
        if not (d.off.divisible(S) and s.off.divisible(S)):
            raise Unsupported('memcpy phase')
        keys = set(k for k in st.mem[s.base].arrs if len(k) == 3) | set(k for k in st.mem[d.base].arrs if len(k) == 3)
        keys |= set(k[1] for k in self.initcache if k[0] in (s.base, d.base) and isinstance(k[1], tuple) and len(k[1]) == 3)
        whole = d.off.is_const() and d.off.c == 0 and s.off.is_const() and s.off.c == 0 and (
            (rd.size - n).is_const() and (rd.size - n).c == 0)
        src = st.mem[s.base]
        rs = self.rs_w(st, d.base)
        if whole:
            for k in keys:
                rs.arrs[k] = self.get_arr(st, s.base, k)
            if not keys:
                self.alias_init(d.base, s.base)
            if 'copied' in self.hooks:
                self.hooks['copied'](self, st, d.base, s.base)
            return
        if not n.divisible(S):
            raise Unsupported('memcpy length phase')
        nn = n.exact_div(S)
        do, so = d.off.exact_div(S), s.off.exact_div(S)
        if not keys:
            keys = {(0, S, 'i')} if S in (1, 2, 4, 8) else keys
        for k in keys:
            a = self.get_arr(st, d.base, k)
            b = self.get_arr(st, s.base, k)
            if nn.is_const() and nn.c <= 256:
                vals = [z3.simplify(z3.Select(b, (so + i).z)) for i in range(nn.c)]
                for i in range(nn.c):
                    a = z3.Store(a, (do + i).z, vals[i])
                rs.arrs[k] = a
                continue
            c = z3.Const(self.sym('mcpy'), a.sort())
            j = z3.Int('j!q')
            st.assume(z3.ForAll([j], z3.Select(c, j) == z3.If(z3.And(do.z <= j, j < (do + nn).z),
                                                              z3.Select(b, j - do.z + so.z), z3.Select(a, j)),
                                patterns=[z3.Select(c, j)]))
            rs.arrs[k] = c

    def copy_words(self, st, d, s, n):
        """between separate cells and elements at a symbolic position"""
        rd, rs = self.regions[d.base], self.regions[s.base]
        cd, cs = self.cellmode(st, rd) and d.off.is_const(), self.cellmode(st, rs) and s.off.is_const()
        S = rs.stride if cd else rd.stride
        if cd == cs or not S or n % S or n // S > 256 or S not in (1, 2, 4, 8):
            return False
        ty = Ty('int', 8 * S)
        if cs and any(sz != S or (o - s.off.c) % S for o, (sz, _, _) in st.mem[s.base].cells.items() if s.off.c - sz < o < s.off.c + n):
            return False
        for k in range(0, n, S):
            self.store(st, d + k, self.load(st, s + k, ty), ty)
        return True

    def alias_init(self, d, s):
        raise Unsupported('memcpy of an untouched object')

    def free(self, st, p, kinds, what):
        """kinds: acceptable allocation kinds"""
        if isinstance(p, Ptr) and p.base is None:
            if p.off.is_const() and p.off.c == 0:
                return
            if 'free_raw' in self.hooks:
                return self.hooks['free_raw'](self, st, p, kinds, what)
            self.oblige(st, p.off.z == 0, '%s of an unknown pointer' % what)
            return
        r = self.regions[p.base]
        if not st.mem[p.base].alive:
            self.oblige(st, False, '%s: %s released twice' % (what, r.name))
            return
        self.oblige(st, zand(p.off.z == 0 if not p.off.is_const() else p.off.c == 0, r.kind in kinds),
                    '%s releases %s with the matching allocator' % (what, r.name))
        self.rs_w(st, p.base).alive = False

    # ------------------------------------------------------------ globals
    def global_ptr(self, st, name):
        if name in self.m.funcs or name in self.m.decls:
            return Fn(name)
        g = self.m.glob(name)
        if g is None:
            raise Unsupported('global ' + name)
        if g[0] == 'alias':
            return self.global_ptr(st, g[1])
        if name not in self.globmem:
            ty, init, const = g
            try:
                size = self.m.size(ty)
            except Exception:
                size = 8
            self.nreg += 1
            r = Region(self.nreg, '@' + name, size, None, 'global', 'sym', False)
            rty = self.m.resolve(ty)
            if rty.k == 'array':
                r.stride = self.m.size(rty.e)
            self.regions[r.rid] = r
            self.globmem[name] = (r.rid, ty, init, const)
        rid, ty, init, const = self.globmem[name]
        if rid not in st.mem:
            r = self.regions[rid]
            rs = RS()
            st.mem[rid] = rs
            st.pc.append(r.base >= 65536)
            for g in self.globmem.values():
                if g[0] != rid and g[0] in st.mem:
                    st.pc.append(r.base != self.regions[g[0]].base)
            if init is not None and (const or self.m.global_readonly(name)):
                self.fill(st, rs, ty, init, 0)
            r.const = const
        return Ptr(rid, 0)

    def fill(self, st, rs, ty, v, off):
        ty = self.m.resolve(ty)
        if v.k == 'zero':
            if ty.k == 'int':
                rs.cells[off] = (self.m.size(ty), self.const_iv(ty.n, 0), ty)
            elif ty.k == 'ptr':
                rs.cells[off] = (8, NULL, ty)
            elif ty.k == 'array':
                es = self.m.size(ty.e)
                for i in range(ty.n):
                    self.fill(st, rs, ty.e, v, off + i * es)
            elif ty.k == 'struct':
                for i in range(len(ty.e)):
                    o, e = self.m.field(ty, i)
                    self.fill(st, rs, e, v, off + o)
            return
        if v.k == 'cstr':
            for i, b in enumerate(v.v):
                rs.cells[off + i] = (1, self.const_iv(8, b), Ty('int', 8))
        elif v.k == 'agg':
            if ty.k == 'array':
                es = self.m.size(ty.e)
                for i, x in enumerate(v.v):
                    self.fill(st, rs, ty.e, x, off + i * es)
            else:
                for i, x in enumerate(v.v):
                    o, e = self.m.field(ty, i)
                    self.fill(st, rs, e, x, off + o)
        elif v.k == 'undef' or v.k == 'fp':
            pass
        else:
            rs.cells[off] = (self.m.size(ty), self.operand(st, None, v), ty)

    # ------------------------------------------------------------ operands
    def operand(self, st, env, v):
        k = v.k
        if k == 'reg':
            try:
                return env[v.v]
            except KeyError:
                raise Unsupported('undefined register %' + v.v)
        if k == 'int':
            if v.ty.k == 'int' and v.ty.n == 1:
                return B1(bool(v.v & 1))
            return self.const_iv(v.ty.n, v.v % (2 ** v.ty.n))
        if k == 'null':
            return NULL
        if k == 'undef':
            if v.ty.k == 'struct':
                return Agg([Undef(e) for e in v.ty.e])
            return Undef(v.ty)
        if k == 'zero':
            t = self.m.resolve(v.ty)
            if t.k == 'struct':
                return Agg([self.operand(st, env, Val('zero', None, e)) for e in t.e])
            if t.k == 'int':
                return self.const_iv(t.n, 0)
            if t.k == 'ptr':
                return NULL
            return Opaque(0)
        if k == 'global':
            return self.global_ptr(st, v.v)
        if k == 'ce':
            if v.v == 'gep':
                sty, args = v.x
                return self.gep(st, sty, self.operand(st, env, args[0]), [self.operand(st, env, a) for a in args[1:]])
            if v.v == 'ptrtoint':
                return IV(64, self.enc(self.operand(st, env, v.x)))
            if v.v == 'inttoptr':
                a = self.operand(st, env, v.x)
                return self.dec(self.u(st, a))
            if v.v == 'bitcast':
                return self.operand(st, env, v.x)
            raise Unsupported('constant expression ' + v.v)
        if k == 'agg':
            return Agg([self.operand(st, env, x) for x in v.v])
        if k == 'fp':
            return Opaque(('fp', v.v))
        if k == 'meta':
            return None
        raise Unsupported('operand ' + k)

    def gep(self, st, sty, p, idx):
        if isinstance(p, Undef):
            return p
        if isinstance(p, Fn):
            raise Unsupported('gep on function')
        off = p.off
        ty = sty
        for i, v in enumerate(idx):
            if i == 0:
                sz = self.m.size(ty)
                off = off + self.sidx(st, v).scale(sz)
                continue
            t = self.m.resolve(ty)
            if t.k == 'struct':
                n = v.lin.c if isinstance(v, IV) else z3.simplify(v.t).as_long()
                o, ty = self.m.field(t, n)
                off = off + o
            else:
                ty = t.e
                off = off + self.sidx(st, v).scale(self.m.size(ty))
        return Ptr(p.base, off)

    def sidx(self, st, v):
        if isinstance(v, BV):
            t = z3.simplify(v.t)
            if z3.is_bv_value(t):
                return Lin(None, t.as_signed_long())
            return Lin.of(z3.BV2Int(t, True)) if not self.hooks.get('uidx') else Lin.of(z3.BV2Int(t))
        return self.s(st, v)

    # ------------------------------------------------------------ arithmetic
    def bv(self, st, v, w):
        if isinstance(v, BV):
            if v.w == w:
                return v.t
            if v.w < w:
                return z3.ZeroExt(w - v.w, v.t)
            return z3.Extract(w - 1, 0, v.t)
        if isinstance(v, B1):
            return z3.If(zbool(v.t), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(v, Undef):
            return z3.BitVec(self.sym('undef'), w)
        if isinstance(v, IV):
            if v.lin.is_const():
                return z3.BitVecVal(v.lin.c, w)
            return z3.Int2BV(v.lin.z, w)
        if isinstance(v, Ptr):
            return z3.Int2BV(self.enc(v).z, w)
        raise Unsupported('bv %r' % (v,))

    def binop(self, st, op, flags, ty, a, b):
        w = ty.n if ty.k == 'int' else None
        if w is None:
            return Opaque()
        if w == 1:
            x, y = self.b1(st, a), self.b1(st, b)
            if op == 'xor' or op == 'add' or op == 'sub':
                if isinstance(y, bool):
                    return B1(znot(x) if y else x)
                if isinstance(x, bool):
                    return B1(znot(y) if x else y)
                return B1(z3.Xor(x, y))
            if op == 'and' or op == 'mul':
                return B1(zand(x, y))
            if op == 'or':
                return B1(zor(x, y))
            raise Unsupported('i1 ' + op)
        if self.mode == 'bv' and not (isinstance(a, IV) and not a.lin.is_const()) and not (
                isinstance(b, IV) and not b.lin.is_const()):
            return self.binop_bv(st, op, flags, w, self.bv(st, a, w), self.bv(st, b, w))
        a, b = self.as_int(st, a, ty), self.as_int(st, b, ty)
        if isinstance(a, BV):
            a = IV(w, z3.BV2Int(a.t), 0, 2 ** w - 1)
        if isinstance(b, BV):
            b = IV(w, z3.BV2Int(b.t), 0, 2 ** w - 1)
        if isinstance(a, Ptr):
            a = IV(64, self.enc(a))
        if isinstance(b, Ptr):
            b = IV(64, self.enc(b))
        M = 2 ** w
        if 'word' in self.hooks:
            r = self.hooks['word'](self, st, op, w, a, b)
            if r is not None:
                return r
        if op in ('add', 'sub', 'mul'):
            if op == 'mul' and not (a.lin.is_const() or b.lin.is_const()):
                x, y = self.u(st, a), self.u(st, b)
                f = z3.Function('umul', I, I, I)
                t = f(x.z, y.z)
                raise Unsupported('nonlinear multiplication')
            if self.check_nsw and 'nsw' in flags:
                x, y = self.s(st, a), self.s(st, b)
                r = x + y if op == 'add' else x - y if op == 'sub' else (
                    x.scale(y.c) if y.is_const() else y.scale(x.c))
                lo, hi = self.bnd(op, self.sb(a, w), self.sb(b, w))
                if not (lo is not None and lo >= -M // 2 and hi < M // 2):
                    self.oblige(st, zand(r.z >= -M // 2, r.z < M // 2) if not r.is_const() else -M // 2 <= r.c < M // 2,
                                'no signed overflow in ' + op, tag='overflow')
                    lo, hi = -M // 2, M // 2 - 1
                return IV(w, r, lo, hi)
            if op == 'mul':
                c = b.lin.c if b.lin.is_const() else a.lin.c
                o = a if b.lin.is_const() else b
                r = o.lin.scale(c)
                lo, hi = (None, None) if o.lo is None else (min(o.lo * c, o.hi * c), max(o.lo * c, o.hi * c))
            else:
                x, y = a.lin, b.lin
                if op == 'add' and b.lin.is_const() and b.lin.c >= M // 2:
                    y = Lin(None, b.lin.c - M)
                    lo, hi = self.bnd(op, (a.lo, a.hi), (y.c, y.c))
                elif op == 'add' and a.lin.is_const() and a.lin.c >= M // 2:
                    x = Lin(None, a.lin.c - M)
                    lo, hi = self.bnd(op, (x.c, x.c), (b.lo, b.hi))
                else:
                    lo, hi = self.bnd(op, (a.lo, a.hi), (b.lo, b.hi))
                r = x + y if op == 'add' else x - y
            if lo is not None and (lo < -4 * M or hi > 4 * M):
                r0 = self.u(st, IV(w, r, None, None))
                return IV(w, r0, 0, M - 1)
            return IV(w, r, lo, hi)
        if op in ('udiv', 'urem'):
            x, y = self.u(st, a), self.u(st, b)
            self.oblige(st, y.z != 0 if not y.is_const() else y.c != 0, 'division by nonzero')
            if x.is_const() and y.is_const() and y.c:
                return IV(w, x.c // y.c if op == 'udiv' else x.c % y.c)
            if y.is_const():
                t = x.z / y.c if op == 'udiv' else x.z % y.c
                return IV(w, t, 0, (M - 1) // y.c if op == 'udiv' else y.c - 1)
            f = z3.Function('umod' if op == 'urem' else 'udiv', I, I, I)
            t = f(x.z, y.z)
            if op == 'urem' and not z3.is_app_of(x.z, z3.Z3_OP_UNINTERPRETED) and self.P.valid_quick(st, z3.And(0 <= x.z, x.z <= y.z)):
                # at most one step past the end: wraps around to zero
                return IV(w, z3.If(x.z == y.z, 0, x.z), 0, M - 1)
            if op == 'urem':
                st.assume(t >= 0, z3.Implies(y.z > 0, t < y.z), z3.Implies(z3.And(x.z < y.z), t == x.z))
            else:
                st.assume(t >= 0, t <= x.z)
            return IV(w, t, 0, M - 1)
        if op in ('sdiv', 'srem'):
            x, y = self.s(st, a), self.s(st, b)
            if not y.is_const():
                raise Unsupported('signed division by a variable')
            if op == 'sdiv' and x.divisible(y.c):
                return IV(w, x.exact_div(y.c), -M // 2, M // 2 - 1)
            if y.c > 0:
                q = z3.If(x.z >= 0, x.z / y.c, -((-x.z) / y.c))
                if self.decide(st, x.z >= 0):
                    q = x.z / y.c
                return IV(w, q if op == 'sdiv' else x.z - y.c * q, -M // 2, M // 2 - 1)
            raise Unsupported('signed division')
        if op in ('shl', 'lshr', 'ashr'):
            k = self.u(st, b)
            if not k.is_const() and op == 'shl' and 'bitshl' in self.hooks:
                self.oblige(st, k.z < w, 'shift amount below width')
                r = self.hooks['bitshl'](self, st, w, self.u(st, a), k)
                if r is not None:
                    return r
            if not k.is_const():
                raise Unsupported('symbolic shift')
            if op == 'shl' and 'bitshlc' in self.hooks and not a.lin.is_const() and 0 < k.c < w:
                r = self.hooks['bitshlc'](self, st, w, self.u(st, a), k.c)
                if r is not None:
                    return r
            if k.c >= w:
                self.oblige(st, False, 'shift amount below width')
                return Undef(ty)
            if op == 'shl':
                if self.check_nsw and 'nsw' in flags:
                    x = self.s(st, a)
                    r = x.scale(2 ** k.c)
                    self.oblige(st, zand(r.z >= -M // 2, r.z < M // 2) if not r.is_const() else -M // 2 <= r.c < M // 2,
                                'no signed overflow in shl', tag='overflow')
                    return IV(w, r, -M // 2, M // 2 - 1)
                x = self.u(st, a)
                hi = a.hi if a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < M else M - 1
                return IV(w, x.scale(2 ** k.c), 0, hi * 2 ** k.c)
            if op == 'lshr':
                x = self.u(st, a)
                if x.is_const():
                    return IV(w, x.c >> k.c)
                return IV(w, x.z / (2 ** k.c), 0, (M - 1) >> k.c)
            x = self.s(st, a)
            if x.is_const():
                return IV(w, x.c >> k.c)
            return IV(w, x.z / (2 ** k.c), -M // 2 >> k.c, (M // 2 - 1) >> k.c)
        if op in ('and', 'or', 'xor'):
            x, y = self.u(st, a), self.u(st, b)
            if x.is_const() and y.is_const():
                return IV(w, x.c & y.c if op == 'and' else x.c | y.c if op == 'or' else x.c ^ y.c)
            if 'bitop' in self.hooks:
                r = self.hooks['bitop'](self, st, op, w, x, y)
                if r is not None:
                    return r
            if x.is_const():
                x, y = y, x
            if y.is_const():
                m = self.mask(x.z, y.c, w)
                if op == 'and':
                    return IV(w, m, 0, y.c)
                if op == 'or':
                    return IV(w, x.z + y.c - m, 0, M - 1)
                return IV(w, x.z + y.c - 2 * m, 0, M - 1)
            f = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q}[op]
            if op in ('or', 'xor'):
                for p_, q_ in ((x, y), (y, x)):
                    k = 1
                    while k < w and q_.divisible(2 ** (k + 1)):
                        k += 1
                    if q_.divisible(2) and self.P.valid_quick(st, p_.z < 2 ** k):
                        return IV(w, p_ + q_, 0, M - 1)
            if 'disjoint' in flags:
                return IV(w, x + y, 0, M - 1)
            if op in ('or', 'xor') and w > 8:
                for p_, q_ in ((x, y), (y, x)):
                    for k in (4, 8, 16):
                        if k < w and self.P.prove(st, z3.And(p_.z < 2 ** k, q_.z % 2 ** k == 0), 3000, True)[0] == 'proved':
                            return IV(w, p_ + q_, 0, M - 1)
            hi = min(h for h in ((a.hi if a.hi is not None and (a.lo or 0) >= 0 else M - 1),
                                 (b.hi if b.hi is not None and (b.lo or 0) >= 0 else M - 1))) if op == 'and' else M - 1
            return IV(w, z3.BV2Int(f(z3.Int2BV(x.z, w), z3.Int2BV(y.z, w))), 0, hi)
        raise Unsupported('binop ' + op)

    def mask(self, x, c, w):
        """x & c for constant c"""
        if c == 0:
            return z3.IntVal(0)
        if c == 2 ** w - 1:
            return x
        tot = None
        i = 0
        while c >> i:
            if (c >> i) & 1:
                j = i
                while (c >> j) & 1:
                    j += 1
                t = x if i == 0 else x / (2 ** i)
                if j < w:
                    t = t % (2 ** (j - i))
                t = t if i == 0 else t * (2 ** i)
                tot = t if tot is None else tot + t
                i = j
            else:
                i += 1
        return tot

    def sb(self, v, w):
        if v.lo is not None and v.lo >= -2 ** (w - 1) and v.hi < 2 ** (w - 1):
            return (v.lo, v.hi)
        if v.lin.is_const():
            c = v.lin.c % 2 ** w
            c = c - 2 ** w if c >= 2 ** (w - 1) else c
            return (c, c)
        return (-2 ** (w - 1), 2 ** (w - 1) - 1)

    def bnd(self, op, a, b):
        if a[0] is None or b[0] is None:
            return None, None
        if op == 'add':
            return a[0] + b[0], a[1] + b[1]
        if op == 'sub':
            return a[0] - b[1], a[1] - b[0]
        p = [a[i] * b[j] for i in (0, 1) for j in (0, 1)]
        return min(p), max(p)

    def binop_bv(self, st, op, flags, w, x, y):
        if op == 'add':
            if self.check_nsw and 'nsw' in flags:
                self.oblige(st, z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)),
                            'no signed overflow in add', tag='overflow') if not (
                        z3.is_bv_value(x) and z3.is_bv_value(y)) else None
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op == 'shl':
            self.bvshift(st, y, w)
            r = x << y
        elif op == 'lshr':
            self.bvshift(st, y, w)
            r = z3.LShR(x, y)
        elif op == 'ashr':
            self.bvshift(st, y, w)
            r = x >> y
        elif op == 'udiv':
            r = z3.UDiv(x, y)
        elif op == 'urem':
            r = z3.URem(x, y)
        elif op == 'sdiv':
            r = x / y
        elif op == 'srem':
            r = z3.SRem(x, y)
        else:
            raise Unsupported('bv ' + op)
        if self.hooks.get('bvsimp', True):
            r = z3.simplify(r)
        return BV(w, r)

    def bvshift(self, st, y, w):
        y = z3.simplify(y)
        if z3.is_bv_value(y):
            if y.as_long() >= w:
                self.oblige(st, False, 'shift amount below width')
            return
        self.oblige(st, z3.ULT(y, w), 'shift amount below width')

    def b1(self, st, v):
        if isinstance(v, B1):
            return v.t
        if isinstance(v, IV):
            u = self.u(st, v)
            if u.is_const():
                return bool(u.c % 2)
            if v.w == 1 or (v.lo == 0 and v.hi == 1):
                return u.z != 0
            return u.z % 2 == 1
        if isinstance(v, BV):
            return z3.Extract(0, 0, v.t) == z3.BitVecVal(1, 1)
        if isinstance(v, Undef):
            return self.fresh_bool('undef')
        raise Unsupported('b1 %r' % (v,))

    def cast(self, st, op, v, ty):
        ty = self.m.resolve(ty)
        if isinstance(v, Undef):
            return Undef(ty)
        if op == 'freeze':
            return self.fresh_ty(st, v.ty) if isinstance(v, Undef) else v
        if op == 'bitcast':
            return v
        if op == 'ptrtoint':
            return IV(64, self.enc(v))
        if op == 'inttoptr':
            if 'inttoptr' in self.hooks:
                r = self.hooks['inttoptr'](self, st, self.u(st, v))
                if r is not None:
                    return r
            return self.dec(self.u(st, v))
        if op == 'zext':
            if isinstance(v, B1):
                if isinstance(v.t, bool):
                    return self.const_iv(ty.n, int(v.t))
                if self.mode == 'bv':
                    return BV(ty.n, self.bv(st, v, ty.n))
                return IV(ty.n, self.u(st, v), 0, 1)
            if isinstance(v, BV):
                return BV(ty.n, z3.simplify(z3.ZeroExt(ty.n - v.w, v.t)))
            u = self.u(st, v)
            lo, hi = (v.lo, v.hi) if v.lo is not None and v.lo >= 0 and v.hi < 2 ** v.w else (0, 2 ** v.w - 1)
            return IV(ty.n, u, lo, hi)
        if op == 'sext':
            if isinstance(v, BV):
                return BV(ty.n, z3.simplify(z3.SignExt(ty.n - v.w, v.t)))
            if isinstance(v, B1):
                if self.mode == 'bv':
                    return BV(ty.n, z3.If(zbool(v.t), z3.BitVecVal(-1, ty.n), z3.BitVecVal(0, ty.n)))
                return IV(ty.n, self.s(st, v), -1, 0)
            s = self.s(st, v)
            lo, hi = self.sb(v, v.w)
            return IV(ty.n, s, lo, hi)
        if op == 'trunc':
            if ty.n == 1:
                return B1(self.b1(st, v))
            if isinstance(v, BV):
                return BV(ty.n, z3.simplify(z3.Extract(ty.n - 1, 0, v.t)))
            lo, hi = v.lo, v.hi
            if lo is None or lo < -4 * 2 ** ty.n or hi > 4 * 2 ** ty.n:
                lo = hi = None
            return IV(ty.n, v.lin, lo, hi)
        return Opaque()

    def icmp(self, st, pred, a, b, ty):
        if ty.k == 'ptr' or isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return self.pcmp(st, pred, a, b)
        if isinstance(a, B1) or isinstance(b, B1):
            x, y = zbool(self.b1(st, a)), zbool(self.b1(st, b))
            if pred == 'eq':
                return B1(self.simp(x == y))
            if pred == 'ne':
                return B1(self.simp(x != y))
            raise Unsupported('i1 icmp')
        if self.mode == 'bv' and not (isinstance(a, IV) and not a.lin.is_const()) and not (
                isinstance(b, IV) and not b.lin.is_const()):
            w = ty.n
            x, y = self.bv(st, a, w), self.bv(st, b, w)
            r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
                 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
            return B1(self.simp(r))
        a, b = self.as_int(st, a, ty), self.as_int(st, b, ty)
        if isinstance(a, BV):
            a = IV(a.w, z3.BV2Int(a.t), 0, 2 ** a.w - 1)
        if isinstance(b, BV):
            b = IV(b.w, z3.BV2Int(b.t), 0, 2 ** b.w - 1)
        if pred in ('eq', 'ne'):
            w = ty.n
            d = a.lin - b.lin
            if d.is_const() and d.c % 2 ** w == 0:
                return B1(pred == 'eq')
            if a.lo is not None and b.lo is not None and self.sb_ok(a, w) and self.sb_ok(b, w):
                x, y = self.s(st, a), self.s(st, b)
            else:
                x, y = self.u(st, a), self.u(st, b)
            d = x - y
            if d.is_const():
                r = d.c == 0
            else:
                r = x.z == y.z
            return B1(r if pred == 'eq' else znot(r))
        if pred[0] == 'u':
            x, y = self.u(st, a), self.u(st, b)
        else:
            x, y = self.s(st, a), self.s(st, b)
        return B1(self.cmp(pred[1:], x, y))

    def sb_ok(self, v, w):
        return v.lin.is_const() or (v.lo >= -2 ** (w - 1) and v.hi < 2 ** (w - 1))

    def cmp(self, p, x, y):
        d = x - y
        if d.is_const():
            return {'lt': d.c < 0, 'le': d.c <= 0, 'gt': d.c > 0, 'ge': d.c >= 0}[p]
        a, b = x.z, y.z
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]

    def simp(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return f

    def pcmp(self, st, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return B1(self.fresh_bool('undefcmp'))
        if isinstance(a, (IV, BV)):
            a = self.dec(self.u(st, a))
        if isinstance(b, (IV, BV)):
            b = self.dec(self.u(st, b))
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) and isinstance(b, Fn):
                r = a.name == b.name
            else:
                o = b if isinstance(a, Fn) else a
                if o.base is None and o.off.is_const():
                    r = False
                else:
                    raise Unsupported('function pointer compare')
            return B1(r if pred == 'eq' else not r)
        if a.base is not None and a.base == b.base:
            d = a.off - b.off
            if pred in ('eq', 'ne'):
                r = d.c == 0 if d.is_const() else d.z == 0
                return B1(r if pred == 'eq' else znot(r))
            return B1(self.cmp(pred[1:], a.off, b.off))
        if pred not in ('eq', 'ne'):
            if a.base is None and b.base is None:
                return B1(self.cmp(pred[1:], a.off, b.off))
            self.oblige(st, False, 'ordered comparison only of pointers into one object (%s, %s)' % (
                self.rname(a), self.rname(b)), tag='pointer-order')
            return B1(self.fresh_bool('ptrorder'))
        if a.base is not None and b.base is not None:
            r = False
        else:
            x, y = (a, b) if a.base is None else (b, a)
            if x.base is None and y.base is None:
                d = x.off - y.off
                r = d.c == 0 if d.is_const() else x.off.z == y.off.z
            elif x.off.is_const() and 0 <= x.off.c < 4096:
                r = False
            else:
                r = self.enc(x).z == self.enc(y).z
        return B1(r if pred == 'eq' else znot(r))

    def rname(self, p):
        return self.regions[p.base].name if p.base is not None else 'absolute address'

    # ------------------------------------------------------------ running
    def run(self, fname, args, st):
        f = self.m.funcs[fname]
        f.blocks
        if len(self.where) > self.max_inline:
            raise Unsupported('inline depth')
        env = {}
        for (n, t), a in zip(f.params, args):
            env[n] = a
        self.where.append(demangle(fname).split('(')[0][-60:])
        before = set(st.mem)
        try:
            outs, exits, backs = self.region(f, [(st, env, f.entry, None)], None)
        finally:
            self.where.pop()
        return outs

    def tick(self):
        self.paths += 1
        if self.paths > self.path_limit:
            raise PathLimit('path limit')
        if self.deadline and time.time() > self.deadline:
            raise PathLimit('time limit')

    def region(self, f, work, loop):
        """execute until outcomes, exits of `loop` (header, body) and back edges to its header"""
        outs, exits, backs = [], [], []
        work = list(work)
        while work:
            st, env, b, prev = work.pop()
            first = prev is None or (loop and b == loop[0] and prev == '#enter')
            if loop and not first:
                if b == loop[0]:
                    backs.append((st, env, prev))
                    continue
                if b not in loop[1]:
                    exits.append((st, env, b, prev))
                    continue
            if b in f.loops and not (loop and b == loop[0] and prev == '#enter'):
                o, e = self.do_loop(f, st, env, b, prev)
                outs += o
                for x in e:
                    work.append(x)
                continue
            if prev != '#enter':
                env = dict(env)
                self.phis(f, st, env, b, prev)
            r = self.block(f, st, env, b)
            for kind, x in r:
                if kind == 'go':
                    work.append(x)
                else:
                    outs.append(x)
        return outs, exits, backs

    def phis(self, f, st, env, b, prev):
        news = []
        for I_ in f.blocks[b]:
            if I_.op != 'phi':
                break
            for v, l in I_.x:
                if l == prev:
                    news.append((I_.res, self.operand(st, env, v)))
                    break
            else:
                raise Unsupported('phi from ' + str(prev))
        for n, v in news:
            env[n] = v

    def block(self, f, st, env, b):
        """run the (non-phi) instructions of block b"""
        return self.insts(f, st, env, b, 0)

    def insts(self, f, st, env, b, start):
        blk = f.blocks[b]
        i = start
        n = len(blk)
        while i < n:
            I_ = blk[i]
            op = I_.op
            if op == 'phi':
                i += 1
                continue
            if op in ('call', 'invoke'):
                outs = self.call_inst(f, st, env, I_)
                res = []
                for o in outs:
                    if o.kind == 'ret':
                        if len(outs) == 1:
                            env2 = env
                        else:
                            env2 = dict(env)
                        if I_.res is not None:
                            env2[I_.res] = o.val
                        if op == 'invoke':
                            res.append(('go', (o.st, env2, I_.x[1], b)))
                        elif len(outs) == 1:
                            st = o.st
                            env = env2
                        else:
                            res += self.insts(f, o.st, env2, b, i + 1)
                    elif o.kind == 'throw' and op == 'invoke':
                        env2 = dict(env)
                        env2['#exc'] = o.val
                        res.append(('go', (o.st, env2, I_.x[2], b)))
                    else:
                        res.append(('out', o))
                if op == 'invoke' or len(outs) != 1 or outs[0].kind != 'ret':
                    return res
                i += 1
                continue
            if op == 'br':
                if len(I_.x) == 1:
                    return [('go', (st, env, I_.x[0], b))]
                c = self.b1(st, self.operand(st, env, I_.a[0]))
                return self.branch(st, env, b, [(c, I_.x[0]), (znot(c), I_.x[1])])
            if op == 'switch':
                v = self.operand(st, env, I_.a[0])
                ty = I_.a[0].ty
                cs = []
                rest = []
                for cv, l in I_.x[1]:
                    c = self.icmp(st, 'eq', v, self.const_iv(ty.n, cv % 2 ** ty.n), ty).t
                    cs.append((c, l))
                    rest.append(znot(c))
                cs.append((zand(*rest), I_.x[0]))
                return self.branch(st, env, b, cs)
            if op == 'ret':
                v = self.operand(st, env, I_.a[0]) if I_.a else None
                return [('out', Outcome('ret', st, v))]
            if op == 'unreachable':
                self.oblige(st, False, 'control never falls off the end / reaches undefined behaviour')
                return []
            if op == 'resume':
                return [('out', Outcome('throw', st, env['#exc']))]
            self.forking = True
            try:
                self.simple(f, st, env, I_)
            except NeedFork as nf:
                res = []
                for c, v in nf.cases:
                    if self.P.feasible(st, c):
                        self.tick()
                        s2, e2 = st.clone(), dict(env)
                        s2.assume(c)
                        e2[I_.res] = v
                        res += self.insts(f, s2, e2, b, i + 1)
                return res
            finally:
                self.forking = False
            i += 1
        raise Unsupported('block without terminator')

    def branch(self, st, env, b, cs):
        res = []
        live = [(c, l) for c, l in cs if c is not False]
        feas = []
        for c, l in live:
            if c is True or self.P.feasible(st, c):
                feas.append((c, l))
        for k, (c, l) in enumerate(feas):
            self.tick()
            s2 = st.clone() if k < len(feas) - 1 else st
            if c is not True:
                s2.assume(c)
            res.append(('go', (s2, dict(env), l, b)))
        return res

    def simple(self, f, st, env, I_):
        op = I_.op
        o = lambda k: self.operand(st, env, I_.a[k])
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem', 'fadd',
                  'fsub', 'fmul', 'fdiv'):
            env[I_.res] = self.binop(st, op, I_.flags, I_.ty, o(0), o(1))
        elif op == 'icmp':
            env[I_.res] = self.icmp(st, I_.x, o(0), o(1), I_.a[0].ty)
        elif op == 'fcmp':
            env[I_.res] = B1(self.fresh_bool('fcmp'))
        elif op == 'getelementptr':
            env[I_.res] = self.gep(st, I_.x, o(0), [self.operand(st, env, a) for a in I_.a[1:]])
        elif op == 'load':
            env[I_.res] = self.load(st, o(0), I_.ty)
        elif op == 'store':
            self.store(st, o(1), o(0), I_.ty)
        elif op == 'alloca':
            sz = self.m.size(I_.x)
            t = self.m.resolve(I_.x)
            stride = None
            if t.k == 'array' and self.m.resolve(t.e).k in ('int', 'ptr'):
                stride = self.m.size(t.e)
            if I_.a:
                n = self.u(st, o(0))
                r = self.new_region(st, 'vla', n.scale(sz), sz, 'alloca', 'uninit', True, align=I_.flags[0])
            else:
                r = self.new_region(st, 'local' + (I_.res or ''), sz, stride, 'alloca', 'uninit', True,
                                    align=I_.flags[0])
            env[I_.res] = Ptr(r.rid, 0)
        elif op == 'select':
            c = self.b1(st, o(0))
            env[I_.res] = self.ite(st, c, o(1), o(2))
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'uitofp', 'sitofp', 'fptoui',
                    'fptosi', 'fpext', 'fptrunc'):
            env[I_.res] = self.cast(st, op, o(0), I_.ty)
        elif op == 'extractvalue':
            v = o(0)
            for k in I_.x:
                v = v.e[k] if isinstance(v, Agg) else Undef()
            env[I_.res] = v
        elif op == 'insertvalue':
            v = o(0)
            if isinstance(v, Undef):
                t = self.m.resolve(I_.ty)
                v = Agg([Undef(e) for e in t.e])
            v = Agg(v.e)
            if len(I_.x) != 1:
                raise Unsupported('nested insertvalue')
            v.e[I_.x[0]] = o(1)
            env[I_.res] = v
        elif op == 'landingpad':
            cleanup, clauses = I_.x
            exc = env['#exc']
            sel = 0
            for kind, cv in clauses:
                if kind == 'catch':
                    nm = cv.v if cv.k == 'global' else None
                    if nm is None or self.exc_matches(exc, nm):
                        sel = self.typeid(nm)
                        break
            env[I_.res] = Agg([Opaque(('exc', exc)), self.const_iv(32, sel)])
        elif op == 'fence':
            pass
        else:
            raise Unsupported('instruction ' + op)

    EXC_BASES = {'_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt12length_error': '_ZTISt11logic_error',
                 '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception'}

    def exc_matches(self, exc, nm):
        if exc == nm:
            return True
        # class hierarchy from the typeinfo initialisers
        seen = set()
        work = [exc]
        while work:
            x = work.pop()
            if x == nm:
                return True
            if x in seen:
                continue
            seen.add(x)
            if x in self.EXC_BASES:
                work.append(self.EXC_BASES[x])
            g = self.m._glines.get(x)
            if g:
                for y in re.findall(r'@(_ZTI[A-Za-z0-9_]+)', g):
                    work.append(y)
        return False

    def typeid(self, nm):
        ids = self.fam.setdefault('typeids', {None: 1})
        if nm not in ids:
            ids[nm] = len(ids) + 1
        return ids[nm]

    def ite(self, st, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        d = self.decide(st, c)
        if d is not None:
            return a if d else b
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        if isinstance(a, B1) or isinstance(b, B1):
            return B1(self.simp(z3.If(c, zbool(self.b1(st, a)), zbool(self.b1(st, b)))))
        if isinstance(a, BV) or isinstance(b, BV):
            w = a.w
            return BV(w, z3.If(c, self.bv(st, a, w), self.bv(st, b, w)))
        if isinstance(a, IV):
            w = a.w
            x, y = a, b
            if a.lo is None or a.lo < -2 ** w or a.hi >= 2 ** w:
                x = IV(w, self.u(st, a), 0, 2 ** w - 1)
            if b.lo is None or b.lo < -2 ** w or b.hi >= 2 ** w:
                y = IV(w, self.u(st, b), 0, 2 ** w - 1)
            if (x.lo < 0) != (y.lo < 0) and not (self.sb_ok(x, w) and self.sb_ok(y, w)):
                x = IV(w, self.u(st, x), 0, 2 ** w - 1)
                y = IV(w, self.u(st, y), 0, 2 ** w - 1)
            return IV(w, z3.If(c, x.lin.z, y.lin.z), min(x.lo, y.lo), max(x.hi, y.hi))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.base == b.base:
                d = a.off - b.off
                if d.is_const() and d.c == 0:
                    return a
                S = self.regions[a.base].stride if a.base else None
                if S and (a.off.divisible(S) and b.off.divisible(S)):
                    return Ptr(a.base, Lin.of(z3.If(c, a.off.exact_div(S).z, b.off.exact_div(S).z)).scale(S))
                return Ptr(a.base, z3.If(c, a.off.z, b.off.z))
            raise NeedFork([(c, a), (znot(c), b)])
        if isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name:
            return a
        raise Unsupported('select of %r / %r' % (a, b))

    # ------------------------------------------------------------ calls
    def call_inst(self, f, st, env, I_):
        callee = I_.x[0]
        if callee == 'asm':
            raise Unsupported('inline asm')
        args = [self.operand(st, env, a) if a.k != 'meta' else None for a in I_.a]
        if self.alts:
            args = [self.settle(st, a) for a in args]
            for i, a in enumerate(args):
                ps = self.choices(a)
                if ps:
                    return self.by_case(f, st, env, I_, ps, a)
        if callee.k == 'global':
            name = callee.v
        else:
            v = self.operand(st, env, callee)
            if isinstance(v, Fn):
                name = v.name
            elif isinstance(v, Opaque) and isinstance(v.v, tuple) and v.v[0] == 'handler':
                return self.out1(st, v.v[1](self, st, args, I_))
            elif 'indirect' in self.hooks:
                return self.out1(st, self.hooks['indirect'](self, st, v, args, I_))
            else:
                raise Unsupported('indirect call')
        return self.call(name, args, st, I_)

    def choices(self, p):
        """the constant objects a loop-carried pointer variable may refer to"""
        if not isinstance(p, Ptr) or p.base is not None:
            return None
        for k, (t, n) in p.off.d.items():
            if n == 1 and z3.is_const(t) and t.decl().name() in self.alts and len(p.off.d) == 1 and not p.off.c:
                ps = self.alts[t.decl().name()]
                if ps and all(self.regions[q.base].kind == 'global' and self.regions[q.base].const and q.off.is_const() for q in ps):
                    return ps
        return None

    def by_case(self, f, st, env, I_, ps, a):
        outs = []
        none = []
        for q in ps:
            c = a.off.z == self.enc(q).z
            none.append(znot(c))
            if self.P.feasible(st, c):
                self.tick()
                s2 = st.clone()
                s2.assume(c)
                self.global_ptr(s2, self.regions[q.base].name[1:])
                outs += self.call_inst(f, s2, env, I_)
        c = zand(*none)
        if self.P.feasible(st, c):
            s2 = st.clone()
            s2.assume(c)
            self.oblige(s2, False, 'the pointer refers to an object')
        return outs

    def out1(self, st, r):
        """normalise a handler's result to a list of outcomes"""
        if isinstance(r, list):
            return r
        return [Outcome('ret', st, r)]

    def call(self, name, args, st, I_=None):
        for _ in range(4):
            g = self.m._glines.get(name)
            if name not in self.m.funcs and g and ' alias ' in ' ' + g:
                name = self.m.glob(name)[1]
            else:
                break
        if name.startswith('llvm.') or name in BUILTIN:
            r = self.builtin(name, args, st, I_)
            if r is not NotImplemented:
                return self.out1(st, r)
        dm = demangle(name)
        c = self.contracts.get(dm) or self.contracts.get(name)
        if c is not None:
            self.contracts_used.add(dm)
            return self.out1(st, c.apply(self, st, args))
        for pred, h in self.lib:
            if pred(name, dm):
                r = h(self, st, args, I_, dm)
                if r is NotImplemented:
                    continue
                self.trusted_used.add(dm)
                return self.out1(st, r)
        if name in self.m.funcs:
            self.inlined.add(dm)
            st0 = st.clone()
            return self.joined(st0, self.run(name, args, st), args)
        raise Unsupported('no contract for external function ' + dm)

    def joined(self, st0, outs, args):
        """one outcome for many that differ only in the integer returned"""
        if len(outs) < 6 or self.mode != 'int':
            return outs
        n, q = len(st0.pc), len(st0.q)
        for o in outs:
            if o.kind != 'ret' or not isinstance(o.val, IV) or len(o.st.q) != q or self.diff(st0, o.st):
                return outs
            if any(a is not b for a, b in zip(st0.pc, o.st.pc)) or any(has_quant(f) for f in o.st.pc[n:]):
                return outs
        vals = [self.u(o.st, o.val) for o in outs]
        st = outs[0].st.clone()
        for o in outs:
            for rid, rs in o.st.mem.items():
                st.mem.setdefault(rid, rs)
        st.pc = list(st0.pc)
        for f in outs[0].st.pc[n:]:
            if all(any(f is g or f.eq(g) for g in o.st.pc[n:]) for o in outs[1:]):
                st.pc.append(f)
        w = outs[0].val.w
        r = self.fresh_int('result')
        cases = [z3.And(r == v.z, *o.st.pc[n:]) for v, o in zip(vals, outs)]
        st.assume(r >= 0, r < 2 ** w, z3.Or(*cases))
        # consequences of the case distinction that later steps need cheaply
        for k in (w - 4, w - 3, w - 2, w - 1):
            if self.P.valid_quick(st, r < 2 ** k):
                st.assume(r < 2 ** k)
                break
        for a in args:
            if isinstance(a, IV) and a.w == w and not a.lin.is_const():
                x = self.u(st, a).z
                for f in (r > x, r >= x, r < x, r <= x):
                    if self.P.valid_quick(st, f):
                        st.assume(f)
                        break
        if all(v.is_const() for v in vals):
            return [Outcome('ret', st, IV(w, r, min(v.c for v in vals), max(v.c for v in vals)))]
        return [Outcome('ret', st, IV(w, r, 0, 2 ** w - 1))]

    def builtin(self, name, args, st, I_):
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.experimental.noalias') \
                or name.startswith('llvm.invariant') or name in ('llvm.donothing', 'llvm.stackrestore'):
            if name.startswith('llvm.lifetime.end') or name.startswith('llvm.lifetime.start'):
                p = args[1]
                if isinstance(p, Ptr) and p.base and p.off.is_const():
                    rs = self.rs_w(st, p.base)
                    rs.alive = name.startswith('llvm.lifetime.start')
                    rs.cells, rs.arrs = {}, {}
            return None
        if name.startswith('llvm.memset') or name == 'memset':
            self.memset(st, args[0], args[1], self.u(st, args[2]))
            return args[0]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], self.u(st, args[2]), 'memcpy')
            return args[0]
        if name.startswith('llvm.expect'):
            return args[0]
        if name == 'llvm.assume':
            return None
        if name == 'llvm.trap':
            self.oblige(st, False, 'no trap')
            return []
        if name.startswith('llvm.eh.typeid.for'):
            p = args[0]
            nm = I_.a[0].v
            return self.const_iv(32, self.typeid(nm))
        if name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            op = name.split('.')[1]
            ty = I_.ty
            c = self.icmp(st, {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[op], args[0], args[1], ty).t
            return self.ite(st, c, args[0], args[1])
        if name.startswith('llvm.fsh'):
            w = I_.ty.n
            k = args[2]
            if self.mode == 'bv':
                a, b, k = (self.bv(st, x, w) for x in args)
                k = z3.simplify(z3.URem(k, z3.BitVecVal(w, w)))
                cc = z3.Concat(a, b)
                if name.startswith('llvm.fshl'):
                    return BV(w, z3.simplify(z3.Extract(2 * w - 1, w, cc << z3.ZeroExt(w, k))))
                return BV(w, z3.simplify(z3.Extract(w - 1, 0, z3.LShR(cc, z3.ZeroExt(w, k)))))
            raise Unsupported(name)
        if name.startswith(('llvm.uadd.with.overflow', 'llvm.umul.with.overflow', 'llvm.usub.with.overflow')):
            w = I_.a[0].ty.n
            x, y = self.u(st, args[0]), self.u(st, args[1])
            op = name.split('.')[1]
            if op == 'uadd':
                r = x + y
            elif op == 'usub':
                r = x - y
            elif y.is_const() or x.is_const():
                r = x.scale(y.c) if y.is_const() else y.scale(x.c)
            else:
                raise Unsupported('nonlinear mul overflow')
            ov = zor(r.z < 0, r.z >= 2 ** w) if not r.is_const() else not (0 <= r.c < 2 ** w)
            return Agg([IV(w, r), B1(ov)])
        if name == 'malloc':
            n = self.u(st, args[0])
            if 'malloc' in self.hooks:
                r = self.hooks['malloc'](self, st, n)
                if r is not None:
                    return r
            r = self.alloc(st, n, 'malloc', 'uninit')
            if 'allocated' in self.hooks:
                self.hooks['allocated'](self, st, r)
            return r
        if name == 'calloc':
            a, b = self.u(st, args[0]), self.u(st, args[1])
            if not (a.is_const() or b.is_const()):
                raise Unsupported('calloc with two symbolic factors')
            n = a.scale(b.c) if b.is_const() else b.scale(a.c)
            self.oblige(st, zand(n.z < 2 ** 63) if not n.is_const() else n.c < 2 ** 63,
                        'allocation size representable', tag='alloc')
            r = self.alloc(st, n, 'malloc', 'zero', (b if b.is_const() else a).c)
            if 'allocated' in self.hooks:
                self.hooks['allocated'](self, st, r)
            return r
        if name in ('_Znwm', '_Znam'):
            n = self.u(st, args[0])
            return self.alloc(st, n, 'new' if name == '_Znwm' else 'new[]', 'uninit')
        if name == 'free':
            self.free(st, args[0], ('malloc',), 'free')
            return None
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'):
            self.free(st, args[0], ('new',) if name.startswith('_ZdlPv') else ('new[]',), 'delete')
            return None
        if name == '__cxa_allocate_exception':
            r = self.new_region(st, 'exc', self.u(st, args[0]), None, 'exc', 'uninit', True)
            return Ptr(r.rid, 0)
        if name == '__cxa_free_exception':
            return None
        if name == '__cxa_throw':
            return [Outcome('throw', st, I_.a[1].v)]
        if name == '__cxa_begin_catch':
            return args[0] if isinstance(args[0], Ptr) else NULL
        if name == '__cxa_end_catch':
            return None
        if name in ('__clang_call_terminate', '_ZSt9terminatev', 'abort'):
            self.oblige(st, False, 'no std::terminate')
            return []
        if name == '__cxa_pure_virtual':
            self.oblige(st, False, 'no pure virtual call')
            return []
        if name == 'exit':
            return [Outcome('exit', st, args[0])]
        if name == '__cxa_guard_acquire':
            return self.const_iv(32, 0)
        if name in ('__cxa_guard_release', '__cxa_atexit'):
            return self.const_iv(32, 0)
        return NotImplemented

    def alloc(self, st, n, kind, init, stride=None):
        if n.is_const():
            r = self.new_region(st, kind, n, None, kind, init, True)
            return Ptr(r.rid, 0)
        import math
        g = 0
        for _, (t, m) in n.d.items():
            g = math.gcd(g, abs(m))
        if stride is None and g > 1 and n.c % g == 0:
            stride = g
        r = self.new_region(st, kind, n, stride, kind, init, True)
        return Ptr(r.rid, 0)

    # ------------------------------------------------------------ loops
    def trip(self, f, header, env, st):
        """constant trip count?  Some exit test compares an affine function of an
        integer phi (constant start, constant step) with a constant."""
        body = f.loops[header]
        defs = {}
        for b in body:
            for I_ in f.blocks[b]:
                if I_.res is not None:
                    defs[I_.res] = I_
        ph = {}
        for I_ in f.blocks[header]:
            if I_.op != 'phi':
                break
            v = env.get(I_.res)
            o = None
            if I_.ty.k == 'int':
                c = self.cval(v)
                if c is None:
                    continue
            elif isinstance(v, Ptr) and v.base is not None:
                c, o = v.off.c, (v.base, Lin(v.off.d).key())
            else:
                continue
            step = None
            ok = True
            for x, l in I_.x:
                if l in body:
                    if x.k == 'reg' and x.v in defs and defs[x.v].op in ('add', 'sub'):
                        d = defs[x.v]
                        a, b2 = d.a
                        if a.k == 'reg' and a.v == I_.res and b2.k == 'int':
                            s = b2.v if d.op == 'add' else -b2.v
                            if step is None or step == s:
                                step = s
                                continue
                    if o and x.k == 'reg' and x.v in defs and defs[x.v].op == 'getelementptr':
                        d = defs[x.v]
                        if d.a[0].k == 'reg' and d.a[0].v == I_.res and len(d.a) == 2 and d.a[1].k == 'int':
                            s = d.a[1].v * self.m.size(d.x)
                            if step is None or step == s:
                                step = s
                                continue
                    ok = False
            if ok and step:
                ph[I_.res] = (c, step, o)

        def affine(v, depth=0):
            """(start, step, origin) for an operand; the origin of a number is None"""
            if v.k == 'int':
                return (v.v, 0, None)
            if v.k != 'reg':
                return None
            if v.v in ph:
                return ph[v.v]
            if v.v in defs and depth < 6:
                d = defs[v.v]
                if d.op in ('zext', 'sext', 'trunc'):
                    return affine(d.a[0], depth + 1)
                if d.op == 'getelementptr' and len(d.a) == 2:
                    x, y = affine(d.a[0], depth + 1), affine(d.a[1], depth + 1)
                    if x is None or y is None or x[2] is None or y[2] is not None:
                        return None
                    n = self.m.size(d.x)
                    return (x[0] + n * y[0], x[1] + n * y[1], x[2])
                if d.op in ('add', 'sub', 'mul', 'shl'):
                    x, y = affine(d.a[0], depth + 1), affine(d.a[1], depth + 1)
                    if x is None or y is None or x[2] is not None or y[2] is not None:
                        return None
                    if d.op == 'add':
                        return (x[0] + y[0], x[1] + y[1], None)
                    if d.op == 'sub':
                        return (x[0] - y[0], x[1] - y[1], None)
                    if d.op == 'mul' and y[1] == 0:
                        return (x[0] * y[0], x[1] * y[0], None)
                    if d.op == 'shl' and y[1] == 0:
                        return (x[0] << y[0], x[1] << y[0], None)
                return None
            e = env.get(v.v)
            if v.v not in defs and isinstance(e, Ptr) and e.base is not None:
                return (e.off.c, 0, (e.base, Lin(e.off.d).key()))
            c = self.cval(e)
            if c is not None and v.v not in defs:
                return (c, 0, None)
            return None

        best = None
        for b in body:
            t = f.blocks[b][-1]
            if t.op == 'br' and len(t.x) == 2 and any(l not in body for l in t.x):
                c = t.a[0]
                neg = t.x[0] not in body   # exit when true
                while c.k == 'reg' and c.v in defs and defs[c.v].op == 'xor':
                    neg = not neg
                    c = defs[c.v].a[0]
                if c.k == 'reg' and c.v in defs and defs[c.v].op == 'icmp':
                    d = defs[c.v]
                    x, y = affine(d.a[0]), affine(d.a[1])
                    if x is None or y is None or x[2] != y[2]:
                        continue
                    for k in range(0, 5000):
                        u, w = x[0] + k * x[1], y[0] + k * y[1]
                        r = {'eq': u == w, 'ne': u != w, 'ult': u < w, 'ule': u <= w, 'ugt': u > w, 'uge': u >= w,
                             'slt': u < w, 'sle': u <= w, 'sgt': u > w, 'sge': u >= w}[d.x]
                        if r == neg:
                            best = k if best is None else min(best, k)
                            break
                        if x[1] == 0 and y[1] == 0:
                            break
        return best

    def cval(self, v):
        if isinstance(v, IV) and v.lin.is_const():
            c = v.lin.c % 2 ** v.w
            return c - 2 ** v.w if c >= 2 ** (v.w - 1) else c
        if isinstance(v, BV):
            t = z3.simplify(v.t)
            if z3.is_bv_value(t):
                return t.as_signed_long()
        return None

    def do_loop(self, f, st, env, header, prev):
        env = dict(env)
        self.phis(f, st, env, header, prev)
        body = f.loops[header]
        key = (f.name, header)
        n = self.trip(f, header, env, st)
        lim = self.hooks.get('unroll', {}).get(demangle(f.name).split('(')[0], self.unroll_max)
        if n is None and self.hooks.get('speculate'):
            r = self.speculate(f, st, env, header, body)
            if r is not None:
                self.loops_seen.setdefault(key, set()).add('unrolled (bounded by constants)')
                return r
        if n is not None and n <= lim:
            outs, exits = [], []
            work = [(st, env)]
            rounds = 0
            while work:
                rounds += 1
                if rounds > 4 * lim + 8:
                    raise Unsupported('unroll limit')
                nxt = []
                for s2, e2 in work:
                    o, e, bk = self.region(f, [(s2, e2, header, '#enter')], (header, body))
                    outs += o
                    exits += e
                    for s3, e3, pv in bk:
                        e3 = dict(e3)
                        self.phis(f, s3, e3, header, pv)
                        nxt.append((s3, e3))
                work = self.merge(f, header, body, nxt) if self.hooks.get('merge') else nxt
            self.loops_seen.setdefault(key, set()).add('unrolled %d' % n)
            return outs, exits
        if any(I_.op == 'phi' and isinstance(env[I_.res], Ptr) and env[I_.res].base is None and env[I_.res].off.is_const() and not env[I_.res].off.c
               for I_ in f.blocks[header]):
            # an iteration over a null range: perhaps the body is never entered
            self.silent += 1
            n0 = self.paths
            try:
                _, _, bk = self.region(f, [(st.clone(), dict(env), header, '#enter')], (header, body))
            except Unsupported:
                bk = [1]
            finally:
                self.silent -= 1
                self.paths = n0
            if not bk:
                self.loops_seen.setdefault(key, set()).add('not repeated')
                o, e, _ = self.region(f, [(st, env, header, '#enter')], (header, body))
                return o, e
        return self.inv_loop(f, st, env, header, body)

    def merge(self, f, header, body, work):
        """states at a loop head that differ only in how they were reached become one"""
        if len(work) < 2:
            return work
        inner = {I_.res for b in body for I_ in f.blocks[b] if I_.res is not None}
        phis = {I_.res for I_ in f.blocks[header] if I_.op == 'phi'}
        keep = lambda e: {k: v for k, v in e.items() if k not in inner or k in phis}
        groups = []
        for st, env in work:
            env = keep(env)
            for g in groups:
                s0, e0 = g[0]
                if e0.keys() == env.keys() and all(same(e0[k], env[k]) for k in phis) and len(s0.q) == len(st.q) and all(
                        a is b for a, b in zip(s0.q, st.q)) and set(s0.mem) == set(st.mem) and not self.diff(s0, st) and s0.g.keys() == st.g.keys():
                    g.append((st, env))
                    break
            else:
                groups.append([(st, env)])
        return [(self.merged([s for s, _ in g]), g[0][1]) if len(g) > 1 else g[0] for g in groups]

    def merged(self, sts):
        n = 0
        while all(len(s.pc) > n and s.pc[n] is sts[0].pc[n] for s in sts):
            n += 1
        r = sts[0].clone()
        rest = [s.pc[n:] for s in sts]
        common = [f for f in rest[0] if all(any(f is g or f.eq(g) for g in o) for o in rest[1:])]
        ids = {f.get_id() for f in common}
        r.pc = r.pc[:n] + common
        alt = [[f for f in o if f.get_id() not in ids] for o in rest]
        if all(alt):
            r.assume(z3.Or(*[z3.And(*o) if len(o) > 1 else o[0] for o in alt]))
        return r

    def speculate(self, f, st, env, header, body):
        """complete unrolling of a loop over constant data, whose end only execution shows"""
        def const_walk(v):
            if isinstance(v, IV):
                return v.lin.is_const()
            return isinstance(v, Ptr) and v.base is not None and v.off.is_const() and self.regions[v.base].const and self.regions[v.base].kind == 'global'
        if not any(I_.op == 'phi' and const_walk(env[I_.res]) for I_ in f.blocks[header]):
            return None

        def go():
            outs, exits, work = [], [], [(st.clone(), dict(env))]
            for _ in range(self.hooks['speculate']):
                nxt = []
                for s2, e2 in work:
                    o, e, bk = self.region(f, [(s2, e2, header, '#enter')], (header, body))
                    outs += o
                    exits += e
                    for s3, e3, pv in bk:
                        e3 = dict(e3)
                        self.phis(f, s3, e3, header, pv)
                        nxt.append((s3, e3))
                if not nxt:
                    return outs, exits
                work = self.merge(f, header, body, nxt) if self.hooks.get('merge') else nxt
                if len(work) > 4:
                    return None
            return None
        self.silent += 1
        n0 = self.paths
        try:
            ok = go() is not None
        except Unsupported:
            ok = False
        finally:
            self.silent -= 1
            self.paths = n0
        return go() if ok else None

    def diff(self, old, new):
        """locations whose contents differ between two states (objects existing in old)"""
        ch = set()
        for rid, rs in old.mem.items():
            n = new.mem.get(rid)
            if n is rs or n is None:
                continue
            if n.alive != rs.alive:
                ch.add(('alive', rid))
            if not n.alive:
                continue
            for k in set(rs.cells) | set(n.cells):
                a, b = rs.cells.get(k), n.cells.get(k)
                if a is not b and not (a is not None and b is not None and a[0] == b[0] and same(a[1], b[1])):
                    ch.add(('cell', rid, k, (b or a)[0], tk((b or a)[2])))
            for k in set(rs.arrs) | set(n.arrs):
                if len(k) != 3:
                    continue
                a, b = rs.arrs.get(k), n.arrs.get(k)
                if a is None:
                    a = self.init_arr(self.regions[rid], k)
                if b is None:
                    b = self.init_arr(self.regions[rid], k)
                if a is not b and not a.eq(b):
                    ch.add(('arr', rid, k))
        for k in set(old.g) | set(new.g):
            a, b = old.g.get(k), new.g.get(k)
            if k not in old.g and isinstance(k, tuple) and k[0] == 'nul':
                continue        # only a hint
            if k not in old.g and isinstance(k, tuple) and k[0] in ('o', 'ofmt', 'tok', 'val', 'parser') and k[2 if k[0] == 'ofmt' else 1] not in old.mem:
                continue
            if k not in old.g and isinstance(k, tuple) and k[0] in ('n', 's', 'nul') and (
                    k[1] not in old.mem or b is None):
                continue
            if isinstance(k, tuple) and k[0] == 'n' and k[1] in new.mem and not new.mem[k[1]].alive:
                continue
            if a is not b and not same(a, b):
                ch.add(('g', k))
        return ch

    def alt_ptr(self, ps):
        k = self.fresh_int('either')
        self.alts[k.decl().name()] = [p for p in ps if p.base is not None]
        return Ptr(None, k)

    def settle(self, st, p):
        """the object a loop-carried pointer variable refers to, where the path decides it"""
        if self.alts and isinstance(p, Ptr) and p.base is None:
            for k, (t, n) in p.off.d.items():
                if n == 1 and z3.is_const(t) and t.decl().name() in self.alts:
                    for a in self.alts[t.decl().name()]:
                        if self.P.valid_quick(st, t == self.enc(a).z):
                            return Ptr(a.base, a.off + (p.off - Lin({k: (t, 1)}, 0)))
        return p

    def havoc(self, st, M, env0=None, only=None, alts={}):
        for loc in sorted(M, key=repr):
            if loc[0] == 'cell':
                _, rid, off, sz, tkind = loc
                rs = self.rs_w(st, rid)
                if (rid, off) in alts:
                    rs.cells[off] = (8, self.alt_ptr(alts[(rid, off)]), PTR)
                    continue
                c = rs.cells.get(off)
                if c is not None and c[0] == sz:
                    rs.cells[off] = (sz, self.fresh_like(st, c[1], 'cell%d' % off), c[2])
                else:
                    ty = Ty('ptr') if tkind == 'ptr' else Ty('int', 8 * sz)
                    for o in [o for o, x in rs.cells.items() if o < off + sz and off < o + x[0]]:
                        del rs.cells[o]
                    rs.cells[off] = (sz, self.fresh_ty(st, ty), ty)
            elif loc[0] == 'arr':
                _, rid, k = loc
                r = self.regions[rid]
                if self.cellmode(st, r):
                    if not r.stride:
                        raise Unsupported('havoc of %s' % r.name)
                    self.to_arrays(st, r)
                a = self.get_arr(st, rid, k)
                self.rs_w(st, rid).arrs[k] = z3.Const(self.sym('harr'), a.sort())
            elif loc[0] == 'g':
                v = st.g.get(loc[1])
                if v is None:
                    raise Unsupported('ghost %r created in loop' % (loc[1],))
                st.g[loc[1]] = self.fresh_like(st, v, 'g')
                h = self.hooks.get('ghost_fact')
                if h:
                    h(self, st, loc[1])
            elif loc[0] == 'alive':
                self.rs_w(st, loc[1]).alive = False    # conservative: any use needs a new lifetime
        h = self.hooks.get('post_havoc')
        if h:
            h(self, st, M)

    def inv_loop(self, f, st0, env0, header, body):
        key = (f.name, header)
        phis = [I_ for I_ in f.blocks[header] if I_.op == 'phi']
        M = set()
        strides = {}
        rounds = 0
        pv = {}
        alts = {}

        def mk_header():
            st = st0.clone()
            env = dict(env0)
            self.havoc(st, M, alts=alts)
            for I_ in phis:
                v = env0[I_.res]
                if ('phi', I_.res) in alts:
                    env[I_.res] = self.alt_ptr(alts[('phi', I_.res)])
                    continue
                if I_.res in pv:
                    v = pv[I_.res]
                if isinstance(v, Undef):
                    if I_.ty.k == 'ptr':
                        env[I_.res] = v
                    else:
                        env[I_.res] = self.fresh_ty(st, I_.ty, 'phi')
                elif isinstance(v, Ptr) and v.base is not None:
                    S = strides.get(I_.res, self.regions[v.base].stride or 1)
                    env[I_.res] = Ptr(v.base, v.off + Lin.of(self.fresh_int('pk')).scale(S))
                elif isinstance(v, Fn):
                    env[I_.res] = v
                else:
                    env[I_.res] = self.fresh_like(st, v, 'phi')
            return st, env

        def new_alt(k, ps):
            old = alts.get(k, [])
            add = [p for p in ps if isinstance(p, Ptr) and p.off.is_const() and not any(p.base == q.base and p.off.c == q.off.c for q in old)]
            bad = [p for p in ps if isinstance(p, Ptr) and p.base is not None and not p.off.is_const()]
            if bad:
                raise Unsupported('pointer variable moves between objects in loop')
            alts[k] = old + add
            return bool(add) or not old

        # 1. discover what the loop changes
        self.silent += 1
        sv_paths = self.paths
        try:
            while True:
                rounds += 1
                if rounds > 12:
                    raise Unsupported('loop havoc does not converge')
                hst, henv = mk_header()
                self.tokens.append({'prev': {}, 'cur': {}})
                try:
                    outs, exits, backs = self.region(f, [(hst.clone(), dict(henv), header, '#enter')], (header, body))
                finally:
                    self.tokens.pop()
                newM = set(M)
                restride = False
                conv = {rid for bst, _, _ in backs for rid, rs in st0.mem.items()
                        if rs.alive and not rs.arrs and rs.cells and rid in bst.mem and bst.mem[rid].arrs}
                if conv:
                    # the loop addresses these objects by symbolic positions
                    st0 = st0.clone()
                    for rid in conv:
                        self.to_arrays(st0, self.regions[rid])
                    M = {x for x in M if x[1] not in conv}
                    continue
                for bst, benv, pb in backs:
                    ch = self.diff(hst, bst)
                    newM |= ch
                    for x in ch:
                        if x[0] == 'cell':
                            h, b = (q.mem[x[1]].cells.get(x[2]) for q in (hst, bst))
                            if h is not None and b is not None and isinstance(h[1], Ptr) and isinstance(b[1], Ptr) and b[1].base != h[1].base and b[1].base is not None or (
                                    h is not None and b is not None and isinstance(h[1], Ptr) and h[1].base is not None and isinstance(b[1], Ptr) and b[1].base is None):
                                e = st0.mem[x[1]].cells.get(x[2])
                                restride |= new_alt((x[1], x[2]), [b[1]] + ([e[1]] if e is not None and isinstance(e[1], Ptr) else []))
                    benv = dict(benv)
                    self.phis(f, bst, benv, header, pb)
                    for I_ in phis:
                        h, b = henv[I_.res], benv[I_.res]
                        if isinstance(h, Ptr) and isinstance(b, Ptr) and h.base is not None:
                            if b.base != h.base:
                                restride |= new_alt(('phi', I_.res), [env0[I_.res], b])
                                continue
                            d = b.off - env0[I_.res].off
                            S = strides.get(I_.res, self.regions[h.base].stride or 1)
                            import math
                            g = S
                            for _, (t, n) in d.d.items():
                                g = math.gcd(g, abs(n))
                            g = math.gcd(g, abs(d.c)) or S
                            if g != S:
                                strides[I_.res] = g
                                restride = True
                        elif isinstance(h, Undef) and not isinstance(b, Undef):
                            pv[I_.res] = b
                            restride = True
                        elif isinstance(h, Ptr) and h.base is None and isinstance(b, Ptr) and b.base is not None:
                            restride |= new_alt(('phi', I_.res), [env0[I_.res], b])
                if newM == M and not restride:
                    break
                M = newM
            L = LoopInfo()
            L.f, L.header, L.st0, L.env0, L.M = f, header, st0, env0, M
            L.hst, L.henv = hst, henv
            L.alts = alts
            L.vars = self.loop_vars(L, phis)
            L.fname = demangle(f.name)
            cands = []
            for k, ps in alts.items():
                def one(E_, s, e, k=k, ps=ps):
                    v = e[k[1]] if k[0] == 'phi' else s.mem[k[0]].cells[k[1]][1]
                    return z3.Or(*[E_.enc(v).z == E_.enc(p).z for p in ps])
                cands.append(('%s+%s one of %d objects' % (k[0] if k[0] == 'phi' else self.regions[k[0]].name, k[1], len(ps)), one))
            for g in [self.generic_cands, lambda E_, L_: self.text_cands(L_)] + self.cand_gens:
                cands += g(self, L)
            # what the enclosing loop's previous pass found: its assumptions were stronger
            memo = (f.name, header, tuple(self.where))
            names = [nm for nm, _ in cands]
            if self.tokens:
                tried, kept = self.tokens[-1]['prev'].get(memo, ((), ()))
                cands = [x for x in cands if x[0] not in tried or x[0] in kept]
            # 2. keep candidates true on entry
            alive = []
            for nm, c in cands:
                try:
                    fm = c(self, st0, env0)
                except (KeyError, AttributeError):
                    continue
                if fm is None:
                    continue
                r = self.P.prove(st0, fm, 1500, True) if not (isinstance(fm, bool)) else ('proved' if fm else 'refuted',)
                if r[0] == 'proved':
                    alive.append((nm, c))
            # 3. Houdini
            it = 0
            t_h = time.time()
            if DEBUG:
                print('houdini', L.fname[:40], header, len(cands), 'candidates', flush=True)
            token = {'prev': {}, 'cur': {}}
            while True:
                it += 1
                if it > 40:
                    raise Unsupported('invariant inference does not converge')
                hst, henv = mk_header()
                for nm, c in alive:
                    hst.assume(c(self, hst, henv))
                token['prev'], token['cur'] = token['cur'], {}
                self.tokens.append(token)
                try:
                    outs, exits, backs = self.region(f, [(hst.clone(), dict(henv), header, '#enter')], (header, body))
                finally:
                    self.tokens.pop()
                drop = set()
                for bst, benv, pb in backs:
                    benv = dict(benv)
                    self.phis(f, bst, benv, header, pb)
                    for nm, c in alive:
                        if nm in drop:
                            continue
                        try:
                            fm = c(self, bst, benv)
                        except (KeyError, AttributeError):
                            fm = False
                        if fm is None:
                            fm = False
                        if self.P.prove(bst, fm, self.hooks.get('inv_ms', 3000), self.hooks.get('inv_quick', True))[0] != 'proved':
                            drop.add(nm)
                if DEBUG:
                    print('houdini', L.fname[:40], header, 'round', it, 'alive', len(alive), 'drop', len(drop), 'backs', len(backs), '%.1fs' % (time.time() - t_h), sorted(drop)[:6], flush=True)
                if not drop:
                    break
                alive = [x for x in alive if x[0] not in drop]
        finally:
            self.silent -= 1
            self.paths = sv_paths
        if self.tokens:
            t, k = self.tokens[-1]['cur'].setdefault(memo, (set(), set()))
            t.update(names)
            k.update(nm for nm, _ in alive)
        def at_exit():
            # the definitional facts the candidates bring along, at the states leaving the loop
            if self.hooks.get('exit_facts'):
                for xst, xenv, _, _ in exits:
                    for nm, c in alive:
                        try:
                            c(self, xst, xenv)
                        except (KeyError, AttributeError):
                            pass
        if self.silent:
            at_exit()
            return outs, exits      # nothing is recorded: the last pass is the answer
        token['prev'], token['cur'] = token['cur'], {}
        # 4. final pass with obligations on
        hst, henv = mk_header()
        for nm, c in alive:
            hst.assume(c(self, hst, henv))
        self.loops_seen.setdefault(key, set()).add('invariant: ' + ', '.join(sorted(nm for nm, _ in alive)))
        ph0 = hst.clone()
        henv0 = dict(henv)
        self.tokens.append(token)
        try:
            outs, exits, backs = self.region(f, [(hst, dict(henv), header, '#enter')], (header, body))
        finally:
            self.tokens.pop()
        if not self.silent and self.hooks.get('variants') and backs:
            found = None
            for nm, m in self.variants(L):
                ok = True
                for bst, benv, pb in backs:
                    b2, e2 = bst.clone(), dict(benv)
                    self.phis(f, b2, e2, header, pb)
                    try:
                        x, y = m(self, ph0, henv0), m(self, b2, e2)
                    except (KeyError, AttributeError):
                        x = None
                    if x is None or y is None or self.P.prove(b2, z3.And(y >= 0, y < x), 3000, True)[0] != 'proved':
                        ok = False
                        break
                if ok:
                    found = nm
                    break
            self.obs.append(Ob(self.unit, 'the loop terminates' + (' (%s decreases)' % found if found else ''), 'termination', L.fname.split('(')[0] + ' loop',
                               found is not None, 'variant' if found else 'unknown: no decreasing measure found', 0.0))
        if not self.silent:
            for bst, benv, pb in backs:
                benv = dict(benv)
                self.phis(f, bst, benv, header, pb)
                for x in self.diff(ph0, bst):
                    if x not in M:
                        raise Unsupported('loop modifies more than discovered: %r' % (x,))
                for nm, c in alive:
                    self.obs.append(Ob(self.unit, 'loop invariant "%s" is inductive' % nm, 'invariant',
                                       demangle(f.name).split('(')[0] + ' loop', True, 'houdini', 0.0))
        at_exit()
        return outs, exits

    def loop_vars(self, L, phis):
        vs = []
        E = self
        for I_ in phis:
            v = L.env0[I_.res]
            if ('phi', I_.res) in L.alts:
                continue
            if I_.ty.k == 'int' and I_.ty.n > 1 and self.mode == 'int':
                def get(E_, st, env, r=I_.res):
                    x = env[r]
                    return None if isinstance(x, Undef) else E_.u(st, x)

                def gets(E_, st, env, r=I_.res):
                    x = env[r]
                    return None if isinstance(x, Undef) else E_.s(st, x)
                lv = LoopVar(I_.res, 'int', get, I_.ty.n)
                lv.stride = gets
                vs.append(lv)
            elif I_.ty.k == 'ptr' and isinstance(v, Ptr) and v.base is not None:
                S = self.regions[v.base].stride or 1

                def getp(E_, st, env, r=I_.res, S=S, rid=v.base):
                    p = env[r]
                    if p.base != rid or not p.off.divisible(S):
                        return None
                    return p.off.exact_div(S)
                vs.append(LoopVar(I_.res, 'ptr', getp, None, v.base, S))
            elif I_.ty.k == 'int' and self.mode == 'bv' and I_.ty.n > 1:
                vs.append(LoopVar(I_.res, 'bv', lambda E_, st, env, r=I_.res: env[r], I_.ty.n))
            elif I_.ty.k == 'ptr':
                vs.append(LoopVar(I_.res, 'raw', lambda E_, st, env, r=I_.res: env[r]))
        skip = self.hooks['skip_cells'](self, L) if 'skip_cells' in self.hooks else ()
        for loc in sorted(L.M, key=repr):
            if loc[0] != 'cell' or loc[1:3] in skip:
                continue
            _, rid, off, sz, tkind = loc
            c = L.hst.mem[rid].cells.get(off)
            if c is None:
                continue
            v = c[1]
            nm = '%s+%d' % (self.regions[rid].name, off)
            if isinstance(v, IV) and v.w > 1:
                def getc(E_, st, env, rid=rid, off=off, sz=sz, w=v.w):
                    return E_.u(st, E_.load_cell(st, E_.regions[rid], off, sz, Ty('int', 8 * sz)))

                def getcs(E_, st, env, rid=rid, off=off, sz=sz, w=v.w):
                    return E_.s(st, E_.load_cell(st, E_.regions[rid], off, sz, Ty('int', 8 * sz)))
                lv = LoopVar(nm, 'int', getc, v.w)
                lv.stride = getcs
                vs.append(lv)
            elif isinstance(v, Ptr) and v.base is not None:
                S = self.regions[v.base].stride or 1

                def getcp(E_, st, env, rid=rid, off=off, S=S, tr=v.base):
                    p = E_.load_cell(st, E_.regions[rid], off, 8, PTR)
                    if p.base != tr or not p.off.divisible(S):
                        return None
                    return p.off.exact_div(S)
                vs.append(LoopVar(nm, 'ptr', getcp, None, v.base, S))
        return vs

    def generic_cands(self, E, L):
        cs = []
        ints = [v for v in L.vars if v.kind in ('int', 'ptr')]
        ent = {}
        for v in ints:
            try:
                ent[v.name] = v.get(E, L.st0, L.env0)
            except Exception:
                ent[v.name] = None
        for v in ints:
            e = ent[v.name]
            if e is None:
                continue
            cs.append(('%s>=start' % v.name, lambda E_, st, env, v=v, e=e: v.get(E_, st, env).z >= e.z))
            cs.append(('%s<=start' % v.name, lambda E_, st, env, v=v, e=e: v.get(E_, st, env).z <= e.z))
            if v.kind == 'ptr':
                r = self.regions[v.rid]
                if r.kind == 'str':
                    cs.append(('%s in string' % v.name, lambda E_, st, env, v=v: z3.And(
                        v.get(E_, st, env).z >= 0, v.get(E_, st, env).z <= st.g[('n', v.rid)])))
                if r.kind not in ('str', 'vec') and r.size.divisible(v.stride):
                    n = r.size.exact_div(v.stride)
                    cs.append(('%s in object' % v.name, lambda E_, st, env, v=v, n=n: z3.And(
                        v.get(E_, st, env).z >= 0, v.get(E_, st, env).z <= n.z)))
            # bounds against loop-invariant integers used in comparisons of the loop
        for bname, bl in self.loop_bounds(L):
            for v in ints:
                if ent[v.name] is None:
                    continue
                cs.append(('%s<=%s' % (v.name, bname), lambda E_, st, env, v=v, b=bl: v.get(E_, st, env).z <= b.z))
                cs.append(('%s>=%s' % (v.name, bname), lambda E_, st, env, v=v, b=bl: v.get(E_, st, env).z >= b.z))
        for i, v in enumerate(ints):
            for w in ints[i + 1:]:
                if ent[v.name] is None or ent[w.name] is None:
                    continue
                d = ent[v.name] - ent[w.name]
                s2 = ent[v.name] + ent[w.name]
                cs.append(('%s-%s const' % (v.name, w.name), lambda E_, st, env, v=v, w=w, d=d: v.get(E_, st, env).z - w.get(
                    E_, st, env).z == d.z))
                cs.append(('%s+%s const' % (v.name, w.name), lambda E_, st, env, v=v, w=w, d=s2: v.get(E_, st, env).z + w.get(
                    E_, st, env).z == d.z))
                for m in (2, 4):
                    cs.append(('%s-%d*%s const' % (v.name, m, w.name),
                               lambda E_, st, env, v=v, w=w, m=m, d=ent[v.name] - ent[w.name].scale(m): v.get(
                                   E_, st, env).z - m * w.get(E_, st, env).z == d.z))
                    cs.append(('%s-%d*%s const' % (w.name, m, v.name),
                               lambda E_, st, env, v=v, w=w, m=m, d=ent[w.name] - ent[v.name].scale(m): w.get(
                                   E_, st, env).z - m * v.get(E_, st, env).z == d.z))
        return cs

    def text_cands(self, L):
        """texts that grow in the loop: what was there stays, what comes is one character"""
        cs = []
        BYTE = (0, 1, 'i')
        k = z3.Int('k!tc')
        for loc in sorted(L.M, key=repr):
            if loc[0] != 'g' or not isinstance(loc[1], tuple) or loc[1][0] != 'n' or L.st0.g.get(loc[1]) is None or loc[1][1] not in L.st0.mem:
                continue
            D = loc[1][1]
            n0 = Lin.of(L.st0.g[loc[1]]).z
            a0 = self.get_arr(L.st0, D, BYTE)
            n = lambda s, D=D: Lin.of(s.g[('n', D)]).z
            cs.append(('text %d not shorter than at the start' % D, lambda E_, s, e, n=n, n0=n0: n(s) >= n0))
            cs.append(('text %d keeps its beginning' % D, lambda E_, s, e, D=D, n0=n0, a0=a0: FA(k, z3.Implies(z3.And(0 <= k, k < n0), z3.Select(
                E_.get_arr(s, D, BYTE), k) == z3.Select(a0, k)), z3.Select(E_.get_arr(s, D, BYTE), k))))
            for c in (0, 48):
                cs.append(('text %d grows by character %d' % (D, c), lambda E_, s, e, D=D, n=n, n0=n0, c=c: FA(k, z3.Implies(z3.And(
                    n0 <= k, k < n(s)), z3.Select(E_.get_arr(s, D, BYTE), k) == c), z3.Select(E_.get_arr(s, D, BYTE), k))))
            for bname, bl in self.loop_bounds(L):
                cs.append(('text %d at most %s' % (D, bname), lambda E_, s, e, n=n, b=bl: n(s) <= b.z))
        return cs

    def variants(self, L):
        out = []
        ints = [v for v in L.vars if v.kind in ('int', 'ptr')]
        for v in ints:
            for bn, b in self.loop_bounds(L):
                out.append(('%s - %s' % (bn, v.name), lambda E_, s, e, v=v, b=b: b.z - v.get(E_, s, e).z))
            if v.kind == 'ptr' and self.regions[v.rid].size.divisible(v.stride):
                n = self.regions[v.rid].size.exact_div(v.stride)
                out.append(('end - %s' % v.name, lambda E_, s, e, v=v, n=n: n.z - v.get(E_, s, e).z))
            out.append((v.name, lambda E_, s, e, v=v: v.get(E_, s, e).z))
        return self.hooks['variants'](self, L) + out

    def loop_bounds(self, L):
        """loop-invariant integers and same-object pointer offsets compared inside the loop"""
        out, seen = [], set()
        f, body = L.f, L.f.loops[L.header]
        for b in body:
            for I_ in f.blocks[b]:
                if I_.op == 'icmp':
                    for a in I_.a:
                        v = None
                        if a.k == 'reg' and a.v in L.env0:
                            v = L.env0[a.v]
                        elif a.k == 'int':
                            v = self.const_iv(a.ty.n, a.v % 2 ** a.ty.n) if a.ty.n > 1 else None
                        if isinstance(v, IV):
                            try:
                                l = self.u(L.st0, v)
                            except Exception:
                                continue
                        elif isinstance(v, Ptr) and v.base is not None:
                            S = self.regions[v.base].stride or 1
                            if not v.off.divisible(S):
                                continue
                            l = v.off.exact_div(S)
                        else:
                            continue
                        if l.key() not in seen:
                            seen.add(l.key())
                            out.append((a.v if a.k == 'reg' else str(a.v), l))
        mine = {v.rid for v in L.vars if v.kind == 'ptr'}
        changed = {x[1:3] for x in L.M if x[0] == 'cell'}
        for rid, rs in L.st0.mem.items():
            if rs.alive and not rs.arrs and len(rs.cells) <= 8:
                for off, (sz, v, ty) in rs.cells.items():
                    if isinstance(v, Ptr) and v.base in mine and (rid, off) not in changed:
                        S = self.regions[v.base].stride or 1
                        if v.off.divisible(S):
                            l = v.off.exact_div(S)
                            if l.key() not in seen:
                                seen.add(l.key())
                                out.append(('%s+%d' % (self.regions[rid].name, off), l))
        for k, n in L.st0.g.items():
            # lengths of the texts only read
            if isinstance(k, tuple) and k[0] == 'n' and n is not None and k[1] in self.regions and self.regions[k[1]].const:
                l = Lin.of(n)
                if l.key() not in seen:
                    seen.add(l.key())
                    out.append(('length of %s' % self.regions[k[1]].name, l))
        for l in self.hooks.get('bounds', lambda E, L: [])(self, L):
            l2 = Lin.of(l[1])
            if l2.key() not in seen:
                seen.add(l2.key())
                out.append((l[0], l2))
        return out


class NeedFork(Unsupported):
    """the instruction's result differs by case; the cases are exhaustive"""
    def __init__(self, cases):
        Unsupported.__init__(self, 'select between different objects')
        self.cases = cases


BUILTIN = {'memset', 'memcpy', 'memmove', 'malloc', 'calloc', '_Znwm', '_Znam', 'free', '_ZdlPv', '_ZdlPvm', '_ZdaPv',
           '_ZdaPvm', '__cxa_allocate_exception', '__cxa_free_exception', '__cxa_throw', '__cxa_begin_catch',
           '__cxa_end_catch', '__clang_call_terminate', '_ZSt9terminatev', 'abort', '__cxa_pure_virtual', 'exit',
           '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_atexit'}


def tk(ty):
    return 'ptr' if ty is not None and ty.k == 'ptr' else 'int'


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        return False
    if isinstance(a, IV):
        return a.w == b.w and a.lin.key() == b.lin.key()
    if isinstance(a, Ptr):
        return a.base == b.base and a.off.key() == b.off.key()
    if isinstance(a, BV):
        return a.w == b.w and a.t.eq(b.t)
    if isinstance(a, B1):
        if isinstance(a.t, bool) or isinstance(b.t, bool):
            return a.t is b.t
        return a.t.eq(b.t)
    if isinstance(a, Fn):
        return a.name == b.name
    if isinstance(a, Undef):
        return True
    if isinstance(a, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, (int, str, tuple)):
        return a == b
    return False
