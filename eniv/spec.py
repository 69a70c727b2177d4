"""Support for the property specifications in /verif/specs."""
import z3, time, traceback, re
from .vals import *
from .exec import *
from . import build, lib
from .build import norm, find
from .ir import demangle, Ty, PTR


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.obs = []
        self.error = None
        self.contracts, self.trusted, self.inlined, self.loops = set(), set(), set(), {}
        self.funcs = []
        self.secs = 0
        self.solver = 0
        self.calls = 0
        self.paths = 0
        self.notes = []
        self.bounded = None


class Ctx:
    """collects the engines of one verification unit"""

    def __init__(self, unit, tier='quick', retry=0):
        self.unit, self.tier, self.retry = unit, tier, retry
        self.engines = []
        self.funcs = []
        self.assumptions = []
        self.on_fail = None

    def engine(self, module, mode='int'):
        E = Engine(module, self.unit, mode)
        E.ctx = self
        E.obs.on_fail = self.on_fail
        k = 1 + 2 * self.retry + (3 if self.tier == 'thorough' else 0)
        E.P.qf_ms *= k
        E.P.q_ms *= k
        E.P.feas_ms *= 1 + self.retry
        lib.install(E)
        self.engines.append(E)
        return E

    def verified(self, *names):
        self.funcs += [n for n in names if n not in self.funcs]


class Lemma:
    """a proof over specification functions only"""

    def __init__(self, E, name):
        self.E, self.name = E, name
        self.st = State()

    def have(self, *f):
        self.st.assume(*f)
        return self

    def show(self, f, what, ms=None):
        return self.E.oblige(self.st, f, '%s: %s' % (self.name, what), tag='lemma', where='lemma', ms=ms)


def ivar(E, st, nm, w=64, signed=False):
    """an arbitrary w-bit argument; returns (value, z3 int in its natural reading)"""
    x = z3.Int(nm)
    if signed:
        st.assume(x >= -2 ** (w - 1), x < 2 ** (w - 1))
        return IV(w, x, -2 ** (w - 1), 2 ** (w - 1) - 1), x
    st.assume(x >= 0, x < 2 ** w)
    return IV(w, x, 0, 2 ** w - 1), x


def need(E, outs, kinds=('ret',)):
    """vacuity guard: some feasible outcome of each given kind"""
    for k in kinds:
        ok = any(o.kind == k and E.P.sat(o.st.pc, z3.BoolVal(True), 5000)[0] != z3.unsat for o in outs)
        E.obs.append(Ob(E.unit, 'precondition satisfiable: some execution ends in %s' % k, 'cover', 'cover', ok,
                        'feasible path' if ok else 'refuted: no feasible execution', 0.0))


def int_vars(L):
    return [v for v in L.vars if v.kind in ('int', 'ptr')]


def val_u(E, st, v):
    return E.u(st, v).z


def byte_range(arr, n):
    i = z3.Int('i!br')
    return FA(i, z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(arr, i) >= 0, z3.Select(arr, i) < 256)), z3.Select(arr, i))
