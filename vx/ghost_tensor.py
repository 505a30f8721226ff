"""Interface contract assumed of sympy.tensor.tensor, as used by /repo.

An index is a triple (name, type, up?); equality and order are by that triple.
A tensor is a head with a list of indices; a product is the list of its factors;
an index is free in it unless the opposite index (same name and type, other
position) also occurs.  Names are text, possibly symbolic.  Canonicalisation
(canon_bp, contract_metric, nocoeff) is outside this interface: reaching it
stops the path as unsupported.

Assumed, not proved; 'bin/conformance' compares it with sympy on concrete runs.
"""

import types

import z3

from vx import core
from vx.core import SBool, SStr


class Meta(type):
    def __lt__(cls, other):
        if not isinstance(other, Meta):
            return True
        return cls.__name__ < other.__name__

    def __gt__(cls, other):
        if not isinstance(other, Meta):
            return False
        return cls.__name__ > other.__name__


def _and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            out.append(x.e)
        elif not x:
            return False
    return SBool(z3.And(out)) if out else True


class Basic(metaclass=Meta):
    _vx__ = True

    def __getattr__(self, name):
        if name.startswith("__") or name in ("is_unbarred",):
            raise AttributeError(name)
        core.unsupported(f"sympy tensor attribute {name}")


class TensorIndexType(Basic):
    def __init__(self, name, metric=False, dim=None, eps_dim=None, dummy_fmt=None):
        self._name, self.dim, self._fmt = name, dim, dummy_fmt
        self.metric = None
        if metric:
            self.metric = TensorHead("metric", [self, self])
        self.epsilon = TensorHead("Eps", [self] * (eps_dim or dim))
        self.delta = TensorHead("KD", [self, self])
        self._autogenerated = []

    @property
    def name(self):
        return self._name

    def __str__(self):
        return self._name

    __repr__ = __str__

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return hash(self._name)

    # one of each, as in sympy
    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class TensorIndex(Basic):
    def __new__(cls, name, tensortype, is_up=True):
        self = object.__new__(cls)
        if name is True:
            name = "_i%d" % len(tensortype._autogenerated)
            tensortype._autogenerated.append(name)
        self._name, self._tit, self._up = name, tensortype, is_up
        return self

    def __init__(self, *a, **k):
        pass

    name = property(lambda self: self._name)
    tensor_index_type = property(lambda self: self._tit)
    is_up = property(lambda self: self._up)

    @property
    def args(self):
        return (self._name, self._tit, self._up)

    def __neg__(self):
        return TensorIndex(self._name, self._tit, not self._up)

    def __eq__(self, other):
        if type(self) is not type(other):
            return False
        return _and(self._tit is other._tit, self._up == other._up, self._name == other._name)

    def __ne__(self, other):
        r = self == other
        return ~r if isinstance(r, SBool) else not r

    def __lt__(self, other):
        return (self._tit._name, self._name) < (other._tit._name, other._name)

    def __hash__(self):
        # by structure where the structure is known; symbolic names all collide
        return hash((self._tit._name, bool(self._up))) if isinstance(self._up, bool) else 7

    def __str__(self):
        return self._name if self._up else "-" + self._name

    __repr__ = __str__


class TensorHead(Basic):
    def __init__(self, name, types, sym=None, comm=0):
        self._name, self.index_types, self.sym, self.comm = name, list(types), sym, comm

    name = property(lambda self: self._name)

    @property
    def args(self):
        return (self._name, self.index_types)

    def __call__(self, *indices, **kw):
        return Tensor(self, list(indices))

    def __str__(self):
        return self._name

    __repr__ = __str__

    def __eq__(self, o):
        return isinstance(o, TensorHead) and self.index_types == o.index_types and self.sym == o.sym and self._name == o._name

    def __hash__(self):
        return 11


def tensorhead(name, typ, sym=None, comm=0, matrix_behavior=0):
    n = sum(sum(b) for b in sym) if sym is not None else len(typ)
    if sym is not None and n != len(typ):
        raise ValueError("wrong symmetry")
    return TensorHead(name, typ, sym, comm)


class TensExpr(Basic):
    def __mul__(self, other):
        return TensMul(self, other)

    def __rmul__(self, other):
        return TensMul(other, self)

    def get_free_indices(self):
        idx = []
        for t in _factors([self]):
            if isinstance(t, Tensor):
                idx.extend(t.indices)
        out = []
        for i, a in enumerate(idx):
            hit = False
            for j, b in enumerate(idx):
                if i != j and a._tit is b._tit and a._up != b._up and bool(a._name == b._name):
                    hit = True
                    break
            if not hit:
                out.append(a)
        return out


def _factors(args):
    out = []
    for a in args:
        if isinstance(a, TensMul):
            out.extend(a._margs)
        else:
            out.append(a)
    return out


class Tensor(TensExpr):
    def __new__(cls, head, indices, **kw):
        self = object.__new__(cls)
        self._head, self._idx = head, indices
        if len(head.index_types) != len(indices):
            raise ValueError("wrong number of indices")
        return self

    def __init__(self, *a, **k):
        pass

    indices = property(lambda self: self._idx)
    component = property(lambda self: self._head)

    @property
    def args(self):
        return (self._head, tuple(self._idx))

    def get_indices(self):
        return list(self._idx)

    def __eq__(self, o):
        if type(self) is not type(o):
            return False
        if len(self._idx) != len(o._idx) or self._head != o._head:
            return False
        return _and(*[a == b for a, b in zip(self._idx, o._idx)])

    def __hash__(self):
        return 13

    def __str__(self):
        s = self._head._name
        if not self._idx:
            return s
        return s + "(" + core.join(", ", [core.to_str(i) for i in self._idx]) + ")"

    __repr__ = __str__


class TensMul(TensExpr):
    def __new__(cls, *args, **kw):
        fs = [a for a in _factors(args) if not (isinstance(a, int) and a == 1)]
        if len(fs) == 1:
            return fs[0]
        self = object.__new__(cls)
        self._margs = fs
        return self

    def __init__(self, *a, **k):
        pass

    @property
    def args(self):
        return tuple(self._margs)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return 17


class _Manager:
    @staticmethod
    def set_comms(*a):
        pass


def module():
    m = types.ModuleType("vx_ghost_tensor")
    for n in ("TensorIndexType", "TensorIndex", "TensorHead", "Tensor", "TensMul", "TensExpr", "tensorhead"):
        setattr(m, n, globals()[n])
    m.TensorManager = _Manager
    return m
