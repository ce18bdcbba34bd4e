"""Abstract values, heap objects and abstract states."""
from . import expr as ex


class Val(object):
    __slots__ = ()

    def _k(self):
        return tuple(getattr(self, s) for s in self.__slots__)

    def __eq__(self, o):
        return type(self) is type(o) and self._k() == o._k()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((type(self).__name__, self._k()))

    def __repr__(self):
        return "%s%r" % (type(self).__name__, self._k())


class C(Val):
    """known constant"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def _k(self):
        return (type(self.v).__name__, self.v if not (isinstance(self.v, float) and self.v != self.v) else "nan")


class R(Val):
    """reference(s) to heap objects"""
    __slots__ = ("oids",)

    def __init__(self, oids):
        self.oids = oids if isinstance(oids, tuple) else (oids,)


class N(Val):
    """immutable scalar"""
    __slots__ = ("expr", "tag", "ty")

    def __init__(self, expr, tag=None, ty="num"):
        self.expr, self.tag, self.ty = expr, tag, ty


class U(Val):
    """Unum quantity: number with tag tn times unit monomial mon; disp: unit it is expressed in"""
    __slots__ = ("mon", "tn", "disp", "expr", "arr")

    def __init__(self, mon, tn=(), disp=None, expr=None, arr=False):
        self.mon, self.tn, self.disp, self.expr, self.arr = mon, tn, disp, expr, arr

    def eff(self):
        return ex.reduce_mono(ex.mdiv(self.mon, self.tn))


class T(Val):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class S(Val):
    """symbolic input (not yet typed)"""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


class X(Val):
    """unknown value: expression for its dependencies, heap objects it may alias, optional coarse type"""
    __slots__ = ("expr", "refs", "ty")

    def __init__(self, expr, refs=(), ty=None):
        self.expr, self.refs, self.ty = expr, tuple(refs), ty


class F(Val):
    __slots__ = ("fi", "fid")

    def __init__(self, fi, fid=None):
        self.fi, self.fid = fi, fid

    def _k(self):
        return (id(self.fi), self.fid)


class B(Val):
    __slots__ = ("fn", "recv")

    def __init__(self, fn, recv):
        self.fn, self.recv = fn, recv


class K(Val):
    __slots__ = ("ci",)

    def __init__(self, ci):
        self.ci = ci

    def _k(self):
        return (self.ci.qual,)


class M(Val):
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod

    def _k(self):
        return (self.mod.name,)


class E(Val):
    """external (library) object by dotted name"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class P(Val):
    __slots__ = ("prop",)

    def __init__(self, prop):
        self.prop = prop

    def _k(self):
        return (id(self.prop),)


class SU(Val):
    __slots__ = ("cls", "recv")

    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv

    def _k(self):
        return (self.cls.qual if self.cls else None, self.recv)


class XM(Val):
    """method of a non-instance value"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


# ---------------------------------------------------------------------------- heap objects (treated as immutable)
class Inst(object):
    __slots__ = ("cls", "attrs", "owner", "lazy")

    def __init__(self, cls, attrs, owner=None, lazy=None):
        self.cls, self.attrs, self.owner, self.lazy = cls, attrs, owner, lazy

    def with_attr(self, name, v):
        a = dict(self.attrs)
        a[name] = v
        return Inst(self.cls, a, self.owner, self.lazy)

    def without(self, name):
        a = dict(self.attrs)
        a.pop(name, None)
        return Inst(self.cls, a, self.owner, self.lazy)


class Arr(object):
    __slots__ = ("expr", "tag", "base", "owner", "ma", "ty", "ndim", "kind")

    def __init__(self, expr, tag=None, base=None, owner=None, ma=None, ty=None, ndim=None, kind="nd"):
        self.expr, self.tag, self.base, self.owner, self.ma = expr, tag, base, owner, ma
        self.ty, self.ndim, self.kind = ty, ndim, kind

    def rep(self, **kw):
        d = {s: getattr(self, s) for s in self.__slots__}
        d.update(kw)
        return Arr(**d)


class Lst(object):
    __slots__ = ("items", "elem", "owner", "lazy", "kind", "lenx")

    def __init__(self, items=None, elem=None, owner=None, lazy=None, kind="list", lenx=None):
        self.items, self.elem, self.owner, self.lazy, self.kind = items, elem, owner, lazy, kind
        self.lenx = lenx

    def rep(self, **kw):
        d = {s: getattr(self, s) for s in self.__slots__}
        d.update(kw)
        return Lst(**d)


class Dct(object):
    __slots__ = ("items", "elem", "owner", "open")

    def __init__(self, items, elem=None, owner=None, open=False):
        self.items, self.elem, self.owner, self.open = items, elem, owner, open

    def rep(self, **kw):
        d = {s: getattr(self, s) for s in self.__slots__}
        d.update(kw)
        return Dct(**d)


class State(object):
    __slots__ = ("frames", "heap", "binds", "types", "neq", "assume", "writes", "events", "numf", "optf", "mats",
                 "stack", "trail", "rsite")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.binds = {}
        self.types = {}
        self.neq = {}
        self.assume = {}
        self.writes = ()      # (ownerpath, func qual, lineno, text, callstack)
        self.events = ()
        self.numf = 0         # number of data-dependent forks on this path
        self.optf = 0         # number of forks on options / types
        self.mats = {}        # materialised symbolic paths -> Val
        self.stack = ()       # call stack: (qual, lineno)
        self.rsite = ()       # call stack at the raise that ended the path
        self.trail = ()       # human readable option decisions

    def fork(self):
        s = State.__new__(State)
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.binds = dict(self.binds)
        s.types = dict(self.types)
        s.neq = dict(self.neq)
        s.rsite = self.rsite
        s.assume = dict(self.assume)
        s.writes = self.writes
        s.events = self.events
        s.numf = self.numf
        s.optf = self.optf
        s.mats = dict(self.mats)
        s.stack = self.stack
        s.trail = self.trail
        return s

    def setvar(self, fid, name, val):
        fr = dict(self.frames[fid])
        fr[name] = val
        self.frames[fid] = fr
