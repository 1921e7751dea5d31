"""Heap objects of the interpreted program."""
import z3
from .vals import *

_SER = [0]


def serial():
    return _SER[0]


def _ser():
    _SER[0] += 1
    return _SER[0]


CUR = [None]


class Logged:
    """Heap objects keep their identity when a path prefix is re-executed (ctx.explore)."""

    def __new__(cls, *a, **k):
        c = CUR[0]
        if c is None:
            o = object.__new__(cls)
            o.ser = _ser()
            return o
        o = c.alloc(cls)
        if o is None:
            o = object.__new__(cls)
            o.ser = _ser()
            c.alloced(o)
        return o


class _Del:
    def __repr__(self):
        return 'DEL'


DEL = _Del()


class Poison:
    """A value the engine lost track of (merged/havocked); reading it is unsupported."""

    def __init__(self, why):
        self.why = why


class GV:
    """guarded union of values: [(cond, value)], exclusive by order, last is the default"""

    def __init__(self, cases):
        self.cases = cases


class Sel(GV):
    """guarded union of constants (classes, functions) that are not terms, held by a variable:
    reading the variable splits the path, handing it to a function under contract does not"""


class HObj(Logged):
    _n = 0

    def __init__(self, cls, attrs=None, tag=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.tag = tag

    def __repr__(self):
        return '<HObj %s %s>' % (getattr(self.cls, '__name__', self.cls), self.tag or '')


class Ent:
    __slots__ = ('cond', 'key', 'val')

    def __init__(self, cond, key, val):
        self.cond, self.key, self.val = cond, key, val


class PLayer:
    """pointwise layer: fn(key value) -> [(cond, val|DEL)]"""
    __slots__ = ('cond', 'fn', 'n', 'pure')

    def __init__(self, fn, cond=True):
        self.fn = fn
        self.cond = cond
        self.n = None
        self.pure = False


class HDict(Logged):
    def __init__(self, base=None, lay=None, frozen=False, tag=None):
        self.base = base
        self.lay = lay if lay is not None else []
        self.frozen = frozen
        self.tag = tag
        self.welltyped = None     # class whose c_param the base content obeys

    def __repr__(self):
        return '<HDict base=%s n=%d>' % (self.base, len(self.lay))


class HList(Logged):
    """items: list of (cond, val) or Seq segments"""

    def __init__(self, items=None, kind='list', frozen=False):
        self.locked = False
        self.items = items if items is not None else []
        self.kind = kind          # 'list' | 'set'
        self.frozen = frozen

    def __repr__(self):
        return '<HList %r>' % (self.items,)


class Seq:
    """Symbolic sequence: elements elem(vars) for every vars with mem(vars)."""
    __slots__ = ('vars', 'mem', 'elem', 'distinct', 'n', 'src', 'exists', 'ordered')

    def __init__(self, vars, mem, elem, distinct=False, src=None, ordered=None):
        self.vars = vars
        self.mem = mem
        self.elem = elem
        self.distinct = distinct
        self.n = None             # length term when known
        self.src = src
        self.ordered = ordered    # None | fn(i)->value

    def __repr__(self):
        return '<Seq %s>' % (self.src,)


class HFunc(Logged):
    """function defined by interpreted code (def/lambda)"""

    def __init__(self, node, env, globs, name, defaults, kwdefaults, owner=None):
        self.node = node
        self.env = env
        self.globs = globs
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.owner = owner


class BoundMethod:
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_


class HSuper:
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class ValMethod:
    """method `name` of builtin-kind receiver"""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class Ext(Logged):
    """object of an external library, behaviour given by a trusted model"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.f = kw

    def __repr__(self):
        return '<Ext %s>' % self.kind


class PyIter(Logged):
    """iterator over a finite list of values"""

    def __init__(self, items):
        self.items = list(items)
        self.pos = 0


class DictView:
    __slots__ = ('d', 'what')

    def __init__(self, d, what):
        self.d = d
        self.what = what
