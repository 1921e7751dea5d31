"""Attribute access, calls, builtin functions and methods of builtin types."""
import ast
import builtins
import copy
import enum
import functools
import inspect
import logging
import types
import z3

from .vals import *
from .vals import _norm
from .ctx import *
from .heap import *
from .interp import *
from .interp import Base, HGen, UNDEF, SIGNALS


def fid(f):
    s = getattr(f, '__self__', None)
    if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType)) and isinstance(s, type):
        return (id(s), f.__name__)
    return id(f)


class FakeType:
    """type(x) of a symbolic value of known kind"""


KINDTYPE = {'None_': type(None), 'Bool_': bool, 'Int_': int, 'Flt_': float, 'Str_': str,
            'Byt_': bytes, 'List_': list, 'Dict_': dict}


class Interp(Base):

    # ------------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                if k is object:
                    return UNDEF
                v = k.__dict__[name]
                return v
        return UNDEF

    def getattr_(self, o, name):
        if isinstance(o, HObj):
            ca = UNDEF
            for k in o.cls.__mro__:
                if name in k.__dict__:
                    ca = k.__dict__[name]
                    break
            if isinstance(ca, property):
                return self.call(BoundMethod(ca.fget, o), [], {})
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    self.unsup('value lost: ' + v.why)
                return v
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                d = HDict(None, [Ent(True, k, x) for k, x in o.attrs.items()])
                return d
            if ca is not UNDEF:
                return self.bind(ca, o, o.cls, name)
            ga = self.class_attr(o.cls, '__getattr__')
            if ga is not UNDEF:
                return self.call(BoundMethod(ga, o), [name], {})
            self.throw(AttributeError, name)
        if isinstance(o, HSuper):
            mro = (o.obj.cls if isinstance(o.obj, HObj) else o.obj).__mro__
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.__dict__:
                    v = k.__dict__[name]
                    if isinstance(o.obj, HObj):
                        return self.bind(v, o.obj, o.obj.cls, name)
                    return v.__get__(None, o.obj)
            self.throw(AttributeError, name)
        if isinstance(o, Ext) and name == '__class__' and '__cls__' in o.f:
            return o.f['__cls__']
        if isinstance(o, Ext):
            if name in o.f:
                return o.f[name]
            h = self.extm.get((o.kind, '.' + name))
            if h:
                return h(self, o)
            if (o.kind, name) in self.extm:
                return ValMethod(o, name)
            if o.kind == 'any':
                self.unsup('attribute %s of external object' % name)
            self.unsup('attribute %s of external %s' % (name, o.kind))
        if isinstance(o, (HDict, HList, DictView, HGen, PyIter, Seq)):
            t = {HDict: dict, DictView: dict}.get(type(o), set if getattr(o, 'kind', '') == 'set' else list)
            if name == '__class__':
                return t
            if isinstance(o, (HDict, HList)) and not hasattr(t, name):
                self.throw(AttributeError, name)
            return ValMethod(o, name)
        if isinstance(o, SB):
            if hasattr(bool, name):
                return ValMethod(o, name)
            self.throw(AttributeError, name)
        if isinstance(o, SV):
            k = self.kind(o)
            if k == 'Msg_' or k == 'Obj_':
                w = self.view(o, name)
                if isinstance(w, SV):
                    self.unsup('attribute %s of opaque object' % name)
                return self.getattr_(w, name)
            if name == '__class__':
                return KINDTYPE[k]
            if not hasattr(KINDTYPE[k], name):
                self.throw(AttributeError, name)
            return ValMethod(self.view(o), name)
        if isinstance(o, (str, bytes, int, float, type(None), tuple, list, dict, set, frozenset)) \
                and not isinstance(o, enum.Enum):
            if not hasattr(o, name):
                self.throw(AttributeError, name)
            return ValMethod(o, name)
        if isinstance(o, (HFunc, BoundMethod)):
            if name == '__name__':
                return getattr(o, 'name', None) or o.fn.__name__
            self.throw(AttributeError, name)
        # real object: module, class, function, enum ...
        if isinstance(o, type):
            for k in o.__mro__:
                if name in k.__dict__:
                    v = k.__dict__[name]
                    if isinstance(v, classmethod):
                        return BoundMethod(v.__func__, o)
                    if isinstance(v, staticmethod):
                        return v.__func__
                    break
        try:
            return getattr(o, name)
        except AttributeError:
            self.throw(AttributeError, name)

    def bind(self, v, obj, cls, name):
        if isinstance(v, types.FunctionType):
            return BoundMethod(v, obj)
        if isinstance(v, HFunc):
            return BoundMethod(v, obj)
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            return BoundMethod(v.__func__, cls)
        if isinstance(v, property):
            return self.call(BoundMethod(v.fget, obj), [], {})
        if isinstance(v, (types.WrapperDescriptorType, types.MethodDescriptorType,
                          types.BuiltinFunctionType)) or callable(v) and hasattr(v, '__get__') \
                and not isinstance(v, type):
            return BoundMethod(v, obj)
        return v

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, env):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            e = env
            while e.selfcls is None and e.parent is not None:
                e = e.parent
            if '__class__' in e.cells:
                fe = e
                first = fe.fn_first
                return HSuper(e.cells['__class__'], fe.vars[first])
            self.unsup('zero-argument super()', n)
        f = self.ev(n.func, env)
        if self.is_logging(f):
            for a in n.args:
                if not isinstance(a, ast.Starred):
                    self.ev(a, env)
            return None
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                items = self.iterate(self.ev(a.value, env))
                for it in items:
                    if isinstance(it, Seq):
                        self.unsup('symbolic *args', n)
                    if self.c.branch(it[0]):
                        args.append(it[1])
            else:
                args.append(self.lookup(a.id, env) if isinstance(a, ast.Name) else self.ev(a, env))
        if any(isinstance(a, Sel) for a in args):
            g = f.fn if isinstance(f, BoundMethod) else f
            if id(g) not in self.contracts or self.suppress.get(id(g)):
                args = [self.resolve(a) for a in args]
        kw = None
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, env)
                d = self.asdict_kw(v)
                if kw is None:
                    kw = self.dsnap(d) if not isinstance(v, dict) else self.dsnap(d)
                else:
                    new = HDict(kw.base, list(kw.lay))
                    for kk in [x.key for x in kw.lay if isinstance(x, Ent)]:
                        if isinstance(kk, str) and self.c.branch(And(self.dhasf(kw, kk), self.dhasf(d, kk))):
                            self.throw(TypeError, 'multiple values for keyword argument')
                    if not self.finite(d) and self.finite(kw):
                        # no key twice: the order of the parts does not matter
                        kw = HDict(d.base, list(d.lay) + list(kw.lay))
                    else:
                        self.dupdate(new, d)
                        kw = new
            else:
                v = self.ev(k.value, env)
                if kw is None:
                    kw = HDict()
                else:
                    if kw.base is not None or kw.lay:
                        if self.c.branch(self.dhasf(kw, k.arg)):
                            self.throw(TypeError, 'got multiple values for keyword argument')
                    kw = HDict(kw.base, list(kw.lay))
                kw.lay = kw.lay + [Ent(True, k.arg, v)]
        return self.call(f, args, kw or {})

    def asdict_kw(self, v):
        x = v
        if isinstance(v, SV) and con_of(v.t) is None:
            t = v.t
            if self.c.branch(Or(Val.is_Dict_(t), Val.is_Msg_(t))):
                x = HDict(base=z3.simplify(z3.If(Val.is_Msg_(t), mdict(Val.m(t)), Val.d(t))))
                x.frozen = True
            elif self.c.branch(Val.is_Obj_(t)):
                x = self.view(v)
            else:
                x = None
        elif isinstance(v, SV):
            x = self.view(v)
        if isinstance(x, (HList, list, tuple, SB, SV, str, int, float, bytes, type(None))):
            self.throw(TypeError, 'argument after ** must be a mapping')
        d = self.asdict(x)
        if d.base is not None and d.base.get_id() not in self.c.strk:
            c = self.c
            if c.choose(2):
                k = c.fval('badkw')
                c.assume(And(dhas(d.base, k), z3.Not(Val.is_Str_(k))))
                self.throw(TypeError, 'keywords must be strings')
            k = c.fresh('k', Val)
            c.assume(z3.ForAll([k], z3.Implies(dhas(d.base, k), Val.is_Str_(k))))
        return d

    def is_logging(self, f):
        if isinstance(f, BoundMethod):
            f = f.fn
        s = getattr(f, '__self__', None)
        return isinstance(s, (logging.Logger, logging.LoggerAdapter)) or \
            (isinstance(f, types.FunctionType) and f.__module__ == 'logging')

    def call(self, f, args, kw):
        if isinstance(kw, dict):
            if kw:
                kw = HDict(None, [Ent(True, k, v) for k, v in kw.items()])
            else:
                kw = HDict()
        if isinstance(f, BoundMethod):
            fn = f.fn
            if isinstance(fn, (types.FunctionType, HFunc)):
                return self.callfn(fn, [f.self] + list(args), kw)
            return self.call_builtin_method(fn, f.self, args, kw)
        if isinstance(f, (types.FunctionType, HFunc)):
            return self.callfn(f, list(args), kw)
        if isinstance(f, types.MethodType):
            return self.callfn(f.__func__, [f.__self__] + list(args), kw)
        if isinstance(f, ValMethod):
            return self.call_valmethod(f.recv, f.name, args, kw)
        if isinstance(f, functools.partial):
            k2 = dict(f.keywords)
            d = HDict(None, [Ent(True, k, v) for k, v in k2.items()])
            self.dupdate(d, kw)
            return self.call(f.func, list(f.args) + list(args), d)
        h = self.models.get(self.fid(f))
        if h:
            return h(self, list(args), kw)
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        if isinstance(f, HObj):
            c = self.class_attr(f.cls, '__call__')
            if c is not UNDEF:
                return self.call(BoundMethod(c, f), args, kw)
            self.throw(TypeError, 'object is not callable')
        if isinstance(f, Ext):
            h = self.extm.get((f.kind, '__call__'))
            if h:
                return h(self, f, args, kw)
            self.unsup('call of external %s' % f.kind)
        if isinstance(f, SV):
            k = self.kind(f)
            if k != 'Obj_':
                self.throw(TypeError, 'object is not callable')
            w = self.view(f)
            if isinstance(w, SV):
                self.unsup('call of opaque object')
            return self.call(w, args, kw)
        if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType)):
            return self.call_builtin(f, args, kw)
        if isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType)) and args:
            return self.call_builtin_method(f, args[0], args[1:], kw)
        if f is None or isinstance(f, SCALARS) or isinstance(f, (tuple, HDict, HList, SB)):
            self.throw(TypeError, 'object is not callable')
        self.unsup('call of %r' % (f,))

    def fid(self, f):
        return fid(f)

    def callfn(self, fn, args, kw):
        if isinstance(fn, types.FunctionType):
            h = self.models.get(id(fn))
            if h:
                return h(self, args, kw)
            c = self.contracts.get(id(fn))
            if c and not self.suppress.get(id(fn)):
                return c(self, args, kw)
            self.suppress[id(fn)] = 0
            args = [self.resolve(a) for a in args]
            if not self.inline_ok(fn):
                self.unsup('call of external function %s.%s' % (fn.__module__, fn.__qualname__))
            node = fn_node(fn)
            self.functions_seen.add('%s.%s' % (fn.__module__, fn.__qualname__))
        else:
            node = fn.node
        if not isinstance(node, ast.Lambda):
            mark_live(node)
        if self.depth > 60:
            self.unsup('recursion too deep at %s' % getattr(fn, '__name__', ''))

        def run():
            self.depth += 1
            try:
                env = self.bindargs(fn, node, args, kw)
                if isinstance(node, ast.Lambda):
                    return self.ev(node.body, env)
                gen = is_generator(node)
                if gen:
                    env.yields = HList()
                try:
                    self.exec(node.body, env)
                except Ret as r:
                    if gen:
                        return env.yields
                    return r.val
                if gen:
                    return env.yields
                return None
            finally:
                self.depth -= 1
        if worth_merging(node) and not self.nomerge(fn):
            return self.run_merged(run)
        return run()

    def nomerge(self, fn):
        return False

    def bindargs(self, fn, node, args, kw):
        a = node.args
        cells, selfcls = {}, None
        if isinstance(fn, HFunc):
            defaults, kwdef = fn.defaults, fn.kwdefaults
        else:
            defaults, kwdef = list(fn.__defaults__ or ()), dict(fn.__kwdefaults__ or {})
            if fn.__closure__:
                for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                    try:
                        cells[nm] = cell.cell_contents
                    except ValueError:
                        pass
                if '__class__' in cells:
                    selfcls = cells['__class__']
        params = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        vals = {}
        if len(args) > len(params) and not a.vararg:
            self.throw(TypeError, 'too many positional arguments')
        for p, v in zip(params, args):
            vals[p] = v
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[len(params):])
        names = params[:] + [x.arg for x in a.kwonlyargs]
        dflt = {}
        for p, v in zip(params[len(params) - len(defaults):], defaults):
            dflt[p] = v
        dflt.update(kwdef)
        dels = []
        empty = kw.base is None and not kw.lay
        for p in names:
            if empty:
                if p not in vals:
                    if p not in dflt:
                        self.throw(TypeError, 'missing required argument %s' % p)
                    vals[p] = dflt[p]
                continue
            has = self.dhasf(kw, p)
            if p in vals:
                if self.c.branch(has):
                    self.throw(TypeError, 'multiple values for argument %s' % p)
                continue
            if p in dflt and has is not True and has is not False:
                # merge the default with the conditional value where possible
                v = self.dgetv_soft(kw, p)
                d = dflt[p]
                if v is not UNDEF and self.termable(v) and self.termable(d):
                    vals[p] = self.merge_vals([(has, v), (True, d)])
                    dels.append(Ent(True, p, DEL))
                    continue
            if self.c.branch(has):
                vals[p] = self.dgetv(kw, p)
                dels.append(Ent(True, p, DEL))
            elif p in dflt:
                vals[p] = dflt[p]
            else:
                self.throw(TypeError, 'missing required argument %s' % p)
        if a.kwarg:
            # keyword dictionaries have str keys only
            rest = HDict(kw.base, kw.lay + dels)
            rest.tag = kw.tag
            vals[a.kwarg.arg] = rest
        elif not empty:
            n = self.truth(HDict(kw.base, kw.lay + dels))
            if self.c.branch(n):
                self.throw(TypeError, 'unexpected keyword argument')
        if isinstance(fn, HFunc):
            env = Env(fn.globs, fn.env, None)
        else:
            env = Env(fn.__globals__, None, selfcls)
            env.cname = fn.__qualname__.split('.')[-2] if '.' in fn.__qualname__ else None
        env.cells = cells
        env.vars.update(vals)
        if params and env.selfcls is not None:
            env.fn_first = params[0]
        return env

    def dgetv_soft(self, d, key):
        cs = [(c, v) for c, v in self.dcases(d, key) if v is not DEL]
        if not cs or not all(self.termable(v) for _, v in cs):
            return UNDEF
        return self.merge_vals_nf(cs)

    # ------------------------------------------------------------------ instances
    def instantiate(self, cls, args, kw):
        if cls in (str, int, bool, float, list, dict, set, frozenset, tuple, bytes, type, object,
                   enumerate, zip, map, filter, reversed, range, super, property, bytearray, slice):
            return self.call_builtin(cls, args, kw)
        if issubclass(cls, BaseException):
            o = HObj(cls, {'args': tuple(args)})
            init = self.class_attr(cls, '__init__')
            if isinstance(init, types.FunctionType):
                self.callfn(init, [o] + list(args), kw)
            return o
        if issubclass(cls, enum.Enum):
            for m in cls:
                f = self.eq(m.value, args[0])
                if self.c.branch(f):
                    return m
            self.throw(ValueError, 'not a valid enum value')
        if (cls.__module__ or '').startswith('oidcmsg'):
            o = HObj(cls, {})
            init = self.class_attr(cls, '__init__')
            if init is UNDEF or not isinstance(init, types.FunctionType):
                if args or (kw.lay or kw.base is not None):
                    self.throw(TypeError, '%s() takes no arguments' % cls.__name__)
                return o
            self.call(BoundMethod(init, o), args, kw)
            return o
        self.unsup('instantiation of %s.%s' % (cls.__module__, cls.__qualname__))

    def isinstance_(self, v, cls):
        """formula"""
        if isinstance(cls, (tuple, list)):
            if isinstance(cls, list):
                self.throw(TypeError, 'isinstance() arg 2 must be a type')
            return Or(*[self.isinstance_(v, c) for c in cls])
        if isinstance(cls, types.UnionType):
            return Or(*[self.isinstance_(v, c) for c in cls.__args__])
        if not isinstance(cls, type):
            import typing
            import collections.abc as cabc
            if cls in (typing.Callable,):
                return callable(v)
            self.throw(TypeError, 'isinstance() arg 2 must be a type')
        if isinstance(v, SB):
            return issubclass(bool, cls)
        if isinstance(v, HDict):
            return issubclass(dict, cls)
        if isinstance(v, HList):
            return issubclass(set if v.kind == 'set' else list, cls)
        if isinstance(v, HObj):
            return issubclass(v.cls, cls)
        if isinstance(v, Ext):
            h = self.extm.get((v.kind, 'isinstance'))
            if h:
                return h(self, v, cls)
            r = v.f.get('__cls__')
            if r is not None:
                return issubclass(r, cls)
            if cls in (str, bytes, int, float, list, dict, tuple, bool, set):
                return False
            self.unsup('isinstance of external %s' % v.kind)
        if isinstance(v, (HFunc, BoundMethod, ValMethod)):
            return issubclass(types.FunctionType, cls)
        if isinstance(v, (DictView, HGen, PyIter, Seq)):
            return cls is object
        if isinstance(v, Poison):
            self.unsup('value lost')
        if isinstance(v, SV):
            t = v.t
            out = []
            for k, ty in KINDTYPE.items():
                if issubclass(ty, cls):
                    out.append(k)
            f = is_kind(t, *out) if out else False
            if (cls.__module__ or '').startswith('oidcmsg') or cls.__name__ in ('MutableMapping', 'Mapping'):
                M = __import__('oidcmsg.message', fromlist=['Message']).Message
                if issubclass(cls, M):
                    codes = [mcls(acc('Msg_', t)) == code for code, k in self.class_codes.items()
                             if issubclass(k, cls)]
                    f = Or(f, And(is_kind(t, 'Msg_'), True if cls is M else Or(*codes)))
                elif issubclass(M, cls):
                    f = Or(f, is_kind(t, 'Msg_'))
            elif cls is object:
                f = True
            else:
                # opaque objects may be instances of any other class
                if not out:
                    f = And(is_kind(t, 'Obj_'), self.ISA(acc('Obj_', t), z3.StringVal(cls.__qualname__)))
            return f
        try:
            return isinstance(v, cls)
        except TypeError as e:
            self.throw(TypeError, *e.args)

    ISA = z3.Function('isa', I, S, B)

    def type_(self, v):
        if isinstance(v, SB):
            return bool
        if isinstance(v, HDict):
            return dict
        if isinstance(v, HList):
            return set if v.kind == 'set' else list
        if isinstance(v, HObj):
            return v.cls
        if isinstance(v, SV):
            k = self.kind(v)
            if k in KINDTYPE:
                return KINDTYPE[k]
            w = self.view(v)
            if isinstance(w, HObj):
                return w.cls
            return SV(Val.Obj_(self.c.fresh('otherclass', I)))     # a class the code does not name
        if isinstance(v, Ext):
            return v.f.get('__cls__') or self.unsup('type() of external')
        return type(v)

    # ------------------------------------------------------------------ builtins
    def call_builtin(self, f, args, kw):
        if kw.base is not None or any(not isinstance(e, Ent) or e.cond is not True for e in kw.lay):
            self.unsup('symbolic keywords for builtin %r' % (f,))
        k = {e.key: e.val for e in kw.lay}
        name = getattr(f, '__name__', str(f))
        m = getattr(self, 'b_' + name, None)
        if m is not None and (getattr(builtins, name, None) is f):
            return m(*args, **k)
        if all(self.plain(a) or isinstance(a, (type, list, dict, tuple, types.ModuleType)) for a in args) and \
                all(self.plain(a) for a in k.values()) and not self.impure(f):
            try:
                return f(*args, **k)
            except Exception as e:
                self.throw(type(e), *e.args)
        self.unsup('builtin %s' % name)

    def impure(self, f):
        return (getattr(f, '__module__', '') or '') in ('posix', 'os', 'time', '_io', 'io') or \
            getattr(f, '__name__', '') in ('open', 'eval', 'exec', 'input', 'print', '__import__')

    def b_len(self, v):
        if isinstance(v, SB) or v is None or isinstance(v, (int, float)):
            self.throw(TypeError, 'object has no len()')
        if isinstance(v, (str, bytes, tuple, list, dict, set, frozenset)):
            return len(v)
        if isinstance(v, HDict):
            return self.mkint2(self.dlen(v))
        if isinstance(v, DictView):
            return self.mkint2(self.dlen(v.d))
        if isinstance(v, HList):
            if v.locked:
                self.unsup('list read while built in a symbolic loop')
            if v.kind == 'set' and len(v.items) > 1:
                self.unsup('len of set')
            return self.mkint2(self.llen(v))
        if isinstance(v, SV):
            k = self.kind(v)
            if k == 'Str_':
                return mkint(z3.Length(acc('Str_', v.t)))
            if k == 'Byt_':
                return mkint(z3.Length(acc('Byt_', v.t)))
            if k in ('List_', 'Dict_', 'Msg_'):
                return self.b_len(self.view(v, '__len__'))
            if k == 'Obj_':
                w = self.view(v)
                if not isinstance(w, SV):
                    return self.b_len(w)
                self.unsup('len of opaque object')
            self.throw(TypeError, 'object has no len()')
        if isinstance(v, HObj):
            m = self.class_attr(v.cls, '__len__')
            if m is UNDEF:
                self.throw(TypeError, 'object has no len()')
            return self.call(BoundMethod(m, v), [], {})
        if isinstance(v, Ext):
            h = self.extm.get((v.kind, '__len__'))
            if h:
                return h(self, v)
        try:
            return len(v)
        except TypeError as e:
            self.throw(TypeError, *e.args)

    def mkint2(self, n):
        return n if isinstance(n, int) else mkint(n)

    def b_isinstance(self, v, cls):
        return mkbool(self.isinstance_(v, cls))

    def b_issubclass(self, a, b):
        if isinstance(a, type):
            try:
                return issubclass(a, b)
            except TypeError as e:
                self.throw(TypeError, *e.args)
        if not isinstance(a, (SV, HObj)):
            self.throw(TypeError, 'issubclass() arg 1 must be a class')
        self.unsup('issubclass')

    def b_callable(self, v):
        if isinstance(v, (HFunc, BoundMethod, ValMethod)):
            return True
        if isinstance(v, (HDict, HList, SB)):
            return False
        if isinstance(v, SV):
            if self.kind(v) != 'Obj_':
                return False
            self.unsup('callable()')
        return callable(v)

    def b_type(self, v, *a):
        if a:
            self.unsup('type() with bases')
        return self.type_(v)

    def b_id(self, v):
        return SV(Val.Int_(self.c.fresh('id', I)))

    def b_repr(self, v):
        return self.repr_(v)

    def b_print(self, *a, **k):
        return None

    def b_str(self, v='', *a, **k):
        if a or k:
            if isinstance(v, bytes):
                try:
                    return str(v, *a, **k)
                except Exception as e:
                    self.throw(type(e), *e.args)
            return self.decode(v)
        return self.str_(v)

    def decode(self, v):
        if isinstance(v, bytes):
            return v.decode('utf-8')
        if isinstance(v, SV):
            if not self.c.branch(is_kind(v.t, 'Byt_')):
                self.throw(TypeError, 'decoding to str: need a bytes-like object')
            return SV(Val.Str_(acc('Byt_', v.t)))
        self.throw(TypeError, 'decoding')

    def b_bool(self, v=False):
        return mkbool(self.truth(v))

    def b_int(self, v=0, base=None):
        if base is not None:
            if self.plain(v):
                try:
                    return int(v, base)
                except Exception as e:
                    self.throw(type(e), *e.args)
            self.unsup('int with base')
        if self.plain(v) and not isinstance(v, tuple):
            try:
                return int(v)
            except Exception as e:
                self.throw(type(e), *e.args)
        if isinstance(v, SB):
            v = SV(self.term(v))
        if isinstance(v, SV):
            k = self.kind(v)
            if k in ('Int_', 'Bool_'):
                return mkint(intval(v.t))
            if k == 'Flt_':
                r = acc('Flt_', v.t)
                return mkint(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
            if k in ('Str_', 'Byt_'):
                s = acc(k, v.t)
                if self.c.branch(self.INTOK(s)):
                    # decimal digits denote their value
                    r = self.INTV(s)
                    self.c.assume(z3.Implies(z3.StrToInt(s) >= 0, r == z3.StrToInt(s)))
                    return mkint(r)
                self.c.assume(z3.StrToInt(s) < 0)
                self.throw(ValueError, 'invalid literal for int()')
            if k in ('Obj_',):
                self.unsup('int of opaque object')
            self.throw(TypeError, 'int() argument must be a string or a number')
        if isinstance(v, Ext):
            self.unsup('int of external')
        self.throw(TypeError, 'int() argument must be a string or a number')

    INTOK = z3.Function('int_ok', S, B)
    INTV = z3.Function('int_val', S, I)

    def b_float(self, v=0.0):
        if self.plain(v):
            try:
                return float(v)
            except Exception as e:
                self.throw(type(e), *e.args)
        self.unsup('float()')

    def b_abs(self, v):
        if self.plain(v):
            return abs(v)
        if self.c.branch(is_kind(v.t, 'Int_', 'Bool_')):
            i = intval(v.t)
            return mkint(z3.If(i >= 0, i, -i))
        self.unsup('abs')

    def b_min(self, *a, **k):
        return self.minmax(a, k, True)

    def b_max(self, *a, **k):
        return self.minmax(a, k, False)

    def minmax(self, a, k, mn):
        if k:
            self.unsup('min/max key')
        if len(a) == 1:
            a = self.definite(a[0])
        if not a:
            self.throw(ValueError, 'empty sequence')
        r = a[0]
        for x in a[1:]:
            c = self.compare(ast.Lt() if mn else ast.Gt(), x, r)
            if self.c.branch(self.truth(c)):
                r = x
        return r

    def definite(self, v):
        if isinstance(v, HGen):
            items = self.gen_items(v)
        else:
            items = self.iterate(v)
        out = []
        for it in items:
            if isinstance(it, Seq):
                self.unsup('symbolic sequence where a finite one is needed')
            if self.c.branch(it[0]):
                out.append(it[1])
        return out

    def b_ord(self, c):
        if self.plain(c):
            try:
                return ord(c)
            except Exception as e:
                self.throw(type(e), *e.args)
        if isinstance(c, SV):
            if not self.c.branch(is_kind(c.t, 'Str_')) or not self.c.branch(z3.Length(acc('Str_', c.t)) == 1):
                self.throw(TypeError, 'ord() expected a character')
            return mkint(z3.StrToCode(acc('Str_', c.t)))
        self.throw(TypeError, 'ord()')

    def b_chr(self, c):
        if self.plain(c):
            try:
                return chr(c)
            except Exception as e:
                self.throw(type(e), *e.args)
        if isinstance(c, SV) and self.c.branch(is_kind(c.t, 'Int_')):
            return SV(Val.Str_(z3.StrFromCode(acc('Int_', c.t))))
        self.unsup('chr')

    def b_list(self, v=()):
        return HList(self.gen_items(v) if isinstance(v, HGen) else list(self.iterate(v)))

    def b_tuple(self, v=()):
        return tuple(self.definite(v))

    def b_set(self, v=()):
        items = self.gen_items(v) if isinstance(v, HGen) else list(self.iterate(v))
        for it in items:
            if not isinstance(it, Seq):
                self.hashable(it[1])
        return HList(items, 'set')

    b_frozenset = b_set

    def b_dict(self, *a, **k):
        d = HDict()
        if a:
            src = a[0]
            if isinstance(src, HGen):
                src = HList(self.gen_items(src))
            d2 = self.asdict(src)
            d = HDict(d2.base, list(d2.lay))
        for kk, v in k.items():
            self.dset(d, kk, v)
        return d

    def b_enumerate(self, v, start=0):
        items = self.iterate(v)
        l = HList()
        for i, it in enumerate(items):
            if isinstance(it, Seq):
                if len(items) == 1 and it.vars[0].sort() == I and it.ordered:
                    s = Seq(it.vars, it.mem, (mkint(it.vars[0] + start), it.elem))
                    s.n = it.n
                    return HList([s])
                self.unsup('enumerate of symbolic sequence')
            if it[0] is not True:
                self.unsup('enumerate of conditional list')
            l.items.append((True, (i + start, it[1])))
        return l

    def b_zip(self, *vs):
        ls = [self.definite(v) for v in vs]
        return HList([(True, tuple(t)) for t in zip(*ls)])

    def b_map(self, f, *vs):
        if len(vs) != 1:
            self.unsup('map with several iterables')
        l = HList()
        items = self.iterate(vs[0])
        self.loop(items, lambda x: self.lpush(l, (True, self.call(f, [x], {}))), Env({}), (), [])
        return l

    def b_filter(self, f, v):
        l = HList()

        def body(x):
            r = x if f is None else self.call(f, [x], {})
            if self.cond(r):
                self.lpush(l, (True, x))
        self.loop(self.iterate(v), body, Env({}), (), [])
        return l

    def b_reversed(self, v):
        items = list(reversed(self.iterate(v)))
        return HList(items)

    def b_sorted(self, v, key=None, reverse=False):
        items = self.gen_items(v) if isinstance(v, HGen) else self.iterate(v)
        if all(not isinstance(i, Seq) and i[0] is True and self.plain(i[1]) for i in items) and key is None:
            try:
                return HList([(True, x) for x in sorted([i[1] for i in items], reverse=bool(reverse))])
            except TypeError as e:
                self.throw(TypeError, *e.args)
        # order is not modelled: only membership of the result is known
        out = []
        for it in items:
            if isinstance(it, Seq):
                s = Seq(it.vars, it.mem, it.elem, it.distinct)
                s.n = self.seqlen(it)
                out.append(s)
            else:
                out.append(it)
        return HList(out)

    def b_range(self, *a):
        if self.plain(tuple(a)):
            try:
                return range(*a)
            except Exception as e:
                self.throw(type(e), *e.args)
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        tl, th = intval(self.term(lo)), intval(self.term(hi))
        iv = self.c.fresh('rx', I)
        s = Seq([iv], z3.And(iv >= tl, iv < th), SV(Val.Int_(iv)), distinct=True,
                ordered=lambda i: mkint(i + tl), src=('range',))
        s.n = z3.If(th > tl, th - tl, z3.IntVal(0))
        return HList([s])

    def b_sum(self, v, start=0):
        r = start
        for x in self.definite(v):
            r = self.binop(ast.Add(), r, x)
        return r

    def quant(self, v, stop):
        """any()/all(): stop is the truth value that ends the scan"""
        def thunk():
            def sink(x):
                t = self.truth(x)
                if self.c.branch(t if stop else Not(t)):
                    raise Ret(stop)
            try:
                if isinstance(v, HGen):
                    self.comp(v.node, v.env, lambda e: sink(self.ev(v.node.elt, e)), v.first)
                else:
                    self.loop(self.iterate(v), sink, Env({}), (), [])
            except Ret as r:
                return r.val
            return not stop
        return self.run_merged(thunk)

    def b_any(self, v):
        return self.quant(v, True)

    def b_all(self, v):
        return self.quant(v, False)

    def b_hasattr(self, o, name):
        try:
            self.getattr_(o, name)
            return True
        except Raise as r:
            if issubclass(r.exc.cls, AttributeError):
                return False
            raise

    def b_getattr(self, o, name, *d):
        if isinstance(name, SV):
            self.unsup('getattr with symbolic name')
        try:
            return self.getattr_(o, name)
        except Raise as r:
            if d and issubclass(r.exc.cls, AttributeError):
                return d[0]
            raise

    def b_setattr(self, o, name, v):
        if isinstance(name, SV):
            self.unsup('setattr with symbolic name')
        self.setattr_(o, name, v)

    def b_super(self, cls, obj):
        return HSuper(cls, obj)

    def b_iter(self, v):
        return PyIter(self.gen_items(v) if isinstance(v, HGen) else self.iterate(v))

    def b_next(self, it, *d):
        if isinstance(it, HGen):
            it = PyIter(self.gen_items(it))
        if not isinstance(it, PyIter):
            self.unsup('next() of %r' % (it,))
        items = it.items[it.pos:]
        for j, x in enumerate(items):
            if isinstance(x, Seq):
                if not self.c.branch(self.seqlen(x) > 0):
                    continue
                if x.ordered:
                    return x.ordered(z3.IntVal(0))
                kv, mem, el = self.generic(x)
                self.c.assume(mem)
                return el
            if self.c.branch(x[0]):
                self.setpos(it, it.pos + j + 1)
                return x[1]
        if d:
            return d[0]
        self.throw(StopIteration)

    def b_vars(self, o):
        return self.getattr_(o, '__dict__')

    def b_open(self, *a, **k):
        h = self.models.get(id(open))
        if h:
            return h(self, list(a), HDict(None, [Ent(True, x, y) for x, y in k.items()]))
        self.unsup('open()')

    # ------------------------------------------------------------------ methods
    def call_builtin_method(self, fn, self_, args, kw):
        name = getattr(fn, '__name__', '?')
        if isinstance(self_, HObj) and name == '__init__':
            if isinstance(self_.cls, type) and issubclass(self_.cls, BaseException):
                self.setattr_(self_, 'args', tuple(args))
            return None
        if isinstance(self_, HObj) and name in ('__str__', '__repr__'):
            return self.str_(self_)
        if isinstance(self_, HObj) and name == '__setattr__':
            return self.setattr_(self_, *args)
        if isinstance(self_, HObj) and name == '__eq__':
            return mkbool(self_ is args[0])
        h = self.models.get(id(fn))
        if h:
            return h(self, [self_] + list(args), kw)
        self.unsup('builtin method %s' % name)

    def call_valmethod(self, o, name, args, kw):
        if isinstance(o, Ext):
            return self.extm[(o.kind, name)](self, o, list(args), kw)
        k = {}
        if kw.base is not None:
            self.unsup('symbolic keywords for method %s' % name)
        for e in kw.lay:
            if not isinstance(e, Ent) or e.cond is not True:
                self.unsup('symbolic keywords for method %s' % name)
            k[e.key] = e.val
        if isinstance(o, DictView):
            self.unsup('method %s of dict view' % name)
        if isinstance(o, dict):
            r = getattr(self, 'd_' + name, None)
            if name in ('update', 'pop', 'setdefault', 'clear', 'popitem', '__setitem__', '__delitem__'):
                self.event('mutation of shared constant container', o)
                o2 = self.const2heap(o)
                o2.frozen = False
                return r(o2, *args, **k)
            return r(self.const2heap(o), *args, **k)
        if isinstance(o, HDict):
            r = getattr(self, 'd_' + name, None)
            if r is None:
                self.unsup('dict method ' + name)
            return r(o, *args, **k)
        if isinstance(o, (list, set, frozenset)):
            if name in ('append', 'extend', 'remove', 'pop', 'insert', 'clear', 'sort', 'reverse', 'add',
                        'update', 'discard'):
                self.event('mutation of shared constant container', o)
                h = self.const2heap(o)
                h.frozen = False
                return getattr(self, 'l_' + name)(h, *args, **k)
            o = self.const2heap(o)
        if isinstance(o, HList):
            r = getattr(self, 'l_' + name, None)
            if r is None:
                self.unsup('list method ' + name)
            if o.locked and name != 'append':
                self.unsup('list read while built in a symbolic loop')
            return r(o, *args, **k)
        if isinstance(o, (str, bytes)) or isinstance(o, SV):
            if isinstance(o, (str, bytes)) and self.plain(tuple(args)) and self.plain(tuple(k.values())):
                try:
                    r = getattr(o, name)(*args, **k)
                except Exception as e:
                    self.throw(type(e), *e.args)
                return HList([(True, x) for x in r]) if isinstance(r, list) else r
            if isinstance(o, str) and name in ('join', 'format', 'split', 'encode'):
                return getattr(self, 's_m_' + name)(o, *args, **k)
            if isinstance(o, SV) and con_of(o.t) == 'Byt_':
                m = getattr(self, 'y_m_' + name, None)
                if m is None and name in ('split', 'rsplit', 'startswith', 'endswith', 'find', 'replace', 'partition') \
                        and args and (isinstance(args[0], str) or isinstance(args[0], SV) and con_of(args[0].t) == 'Str_'):
                    self.throw(TypeError, 'a bytes-like object is required')
                if m is None:
                    self.unsup('bytes method ' + name)
                return m(o, *args, **k)
            if isinstance(o, (str, SV)):
                m = getattr(self, 's_m_' + name, None)
                if m is None:
                    self.unsup('str method ' + name)
                return m(o, *args, **k)
            self.unsup('bytes method ' + name)
        if self.plain(o) and self.plain(tuple(args)):
            try:
                return getattr(o, name)(*args, **k)
            except Exception as e:
                self.throw(type(e), *e.args)
        if isinstance(o, tuple):
            return getattr(self, 'l_' + name)(HList([(True, x) for x in o]), *args, **k)
        if isinstance(o, PyIter) and name == '__next__':
            return self.b_next(o)
        self.unsup('method %s of %r' % (name, o))

    # -- dict
    def d_get(self, d, key, default=None):
        key = self.hashable(key)
        h = self.dhasf(d, key)
        if h is True:
            return self.dgetv(d, key)
        if h is False:
            return default
        v = self.dgetv_soft(d, key)
        if v is not UNDEF and self.termable(default):
            return self.merge_vals([(h, v), (True, default)])
        if self.c.branch(h):
            return self.dgetv(d, key)
        return default

    def d_keys(self, d):
        return DictView(d, 'keys')

    def d_values(self, d):
        return DictView(d, 'values')

    def d_items(self, d):
        return DictView(d, 'items')

    def d_copy(self, d):
        return self.dsnap(d)

    def d_update(self, d, *a, **k):
        if a:
            src = a[0]
            if isinstance(src, HGen):
                src = HList(self.gen_items(src))
            self.dupdate(d, src)
        for kk, v in k.items():
            self.dset(d, kk, v)

    def d_setdefault(self, d, key, default=None):
        key = self.hashable(key)
        if self.c.branch(self.dhasf(d, key)):
            return self.dgetv(d, key)
        self.dset(d, key, default)
        return default

    def d_pop(self, d, key, *dflt):
        key = self.hashable(key)
        if self.c.branch(self.dhasf(d, key)):
            v = self.dgetv(d, key)
            self.dpush(d, Ent(True, key, DEL))
            return v
        if dflt:
            return dflt[0]
        self.throw(KeyError, key)

    def d_clear(self, d):
        self.dpush(d, PLayer(lambda k: [(True, DEL)]))

    def d___contains__(self, d, k):
        return mkbool(self.dhasf(d, self.hashable(k)))

    def d___getitem__(self, d, k):
        return self.ditem(d, k)

    def d___len__(self, d):
        return self.b_len(d)

    def d___setitem__(self, d, k, v):
        return self.dset(d, k, v)

    def d___delitem__(self, d, k):
        return self.ddel(d, k)

    def d___iter__(self, d):
        return self.b_iter(d)

    def d___eq__(self, d, o):
        return mkbool(self.eq(d, o))

    # -- list
    def l_append(self, l, x):
        self.lpush(l, (True, x))

    def l_add(self, l, x):
        self.hashable(x)
        self.lpush(l, (True, x))

    def l_extend(self, l, v):
        items = self.gen_items(v) if isinstance(v, HGen) else self.iterate(v)
        for it in items:
            self.lpush(l, it)

    l_update = l_extend

    def l_copy(self, l):
        return HList(list(l.items), l.kind)

    def l_index(self, l, x, *a):
        items = self.iterate(l)
        if any(isinstance(i, Seq) or i[0] is not True for i in items) or a:
            self.unsup('list.index')
        for i, (_, y) in enumerate(items):
            if self.c.branch(self.eq(y, x)):
                return i
        self.throw(ValueError, 'is not in list')

    def l_remove(self, l, x):
        items = l.items
        if any(isinstance(i, Seq) or i[0] is not True for i in items):
            self.unsup('list.remove on symbolic list')
        for i, (_, y) in enumerate(items):
            if self.c.branch(self.eq(y, x)):
                return self.lreplace(l, items[:i] + items[i + 1:])
        self.throw(ValueError if l.kind == 'list' else KeyError, 'list.remove(x): x not in list')

    def l_pop(self, l, i=-1):
        items = l.items
        if any(isinstance(x, Seq) or x[0] is not True for x in items) or not isinstance(i, int):
            self.unsup('list.pop on symbolic list')
        try:
            v = items[i][1]
        except IndexError:
            self.throw(IndexError, 'pop from empty list')
        new = list(items)
        del new[i]
        self.lreplace(l, new)
        return v

    def l_insert(self, l, i, x):
        new = list(l.items)
        if isinstance(i, int) and not any(isinstance(y, Seq) for y in new):
            new.insert(i, (True, x))
            return self.lreplace(l, new)
        self.unsup('list.insert')

    def l_count(self, l, x):
        n = 0
        for it in self.iterate(l):
            if isinstance(it, Seq):
                self.unsup('count')
            n = n + z3.If(zb(And(it[0], self.eq(it[1], x))), 1, 0)
        return self.mkint2(n)

    def l_sort(self, l, **k):
        self.lreplace(l, self.b_sorted(l, **k).items)

    def l_reverse(self, l):
        self.lreplace(l, list(reversed(l.items)))

    def l_clear(self, l):
        self.lreplace(l, [])

    def l___iter__(self, l):
        return self.b_iter(l)

    def l___len__(self, l):
        return self.b_len(l)

    def l___contains__(self, l, x):
        return mkbool(self.contains(l, x))

    def l_difference(self, l, o):
        r = HList(kind='set')

        def body(x):
            if not self.c.branch(self.contains(o, x)):
                self.lpush(r, (True, x))
        self.loop(self.iterate(l), body, Env({}), (), [])
        return r

    def l_issubset(self, l, o):
        return self.subset(l, o)

    def l_issuperset(self, l, o):
        return self.subset(o, l)

    def subset(self, a, b):
        def thunk():
            def body(x):
                if not self.c.branch(self.contains(b, x)):
                    raise Ret(False)
            try:
                self.loop(self.iterate(a), body, Env({}), (), [])
            except Ret as r:
                return r.val
            return True
        return self.run_merged(thunk)

    # -- str
    def zs(self, o):
        """z3 string of a str value (forks/raises TypeError otherwise)"""
        if isinstance(o, str):
            return z3.StringVal(o)
        if isinstance(o, SV):
            if con_of(o.t) == 'Str_' or self.c.branch(is_kind(o.t, 'Str_')):
                return acc('Str_', o.t)
        self.throw(TypeError, 'expected str')

    def s_m_startswith(self, o, p, *a):
        if a:
            self.unsup('startswith with bounds')
        z = self.zs(o)
        if isinstance(p, tuple):
            return mkbool(Or(*[z3.PrefixOf(self.zs(x), z) for x in p]))
        return mkbool(z3.PrefixOf(self.zs(p), z))

    def s_m_endswith(self, o, p, *a):
        z = self.zs(o)
        if isinstance(p, tuple):
            return mkbool(Or(*[z3.SuffixOf(self.zs(x), z) for x in p]))
        return mkbool(z3.SuffixOf(self.zs(p), z))

    def s_m_find(self, o, p, *a):
        if a:
            self.unsup('find with bounds')
        return mkint(z3.IndexOf(self.zs(o), self.zs(p), z3.IntVal(0)))

    def s_m___contains__(self, o, p):
        return mkbool(self.contains(o, p))

    SPLIT = z3.Function('split', S, S, I)
    SPLITW = z3.Function('splitw', S, I)
    JOIN = z3.Function('join', S, I, S)
    LOWER = z3.Function('lower', S, S)
    UPPER = z3.Function('upper', S, S)
    STRIP = z3.Function('strip', S, S)
    RSTRIP = z3.Function('rstrip', S, S, S)
    LSTRIP = z3.Function('lstrip', S, S, S)

    def s_m_split(self, o, sep=None, maxsplit=-1):
        z = self.zs(o)
        if sep is None:
            l = self.SPLITW(z)
            self.c.assume(lstr(l))
            self.c.assume(z3.Implies(z == z3.StringVal(''), llen(l) == 0))
            return SV(Val.List_(l))
        if maxsplit != -1:
            zp = self.zs(sep)
            if maxsplit == 1:
                i = z3.IndexOf(z, zp, z3.IntVal(0))
                if self.c.branch(i >= 0):
                    n = z3.Length(zp)
                    return HList([(True, mkstr(z3.SubString(z, z3.IntVal(0), i))),
                                  (True, mkstr(z3.SubString(z, i + n, z3.Length(z) - i - n)))])
                return HList([(True, o)])
            self.unsup('split with maxsplit')
        zp = self.zs(sep)
        l = self.SPLIT(z, zp)
        i0 = z3.IndexOf(z, zp, z3.IntVal(0))
        first = Val.s(lnth(l, z3.IntVal(0)))
        # str.split facts: at least one piece, all str, first piece is the text before the separator
        self.c.assume(z3.And(llen(l) >= 1, lstr(l), Val.is_Str_(lnth(l, z3.IntVal(0))),
                             z3.If(i0 < 0, z3.And(llen(l) == 1, first == z),
                                   z3.And(llen(l) > 1, first == z3.SubString(z, z3.IntVal(0), i0))),
                             self.JOIN(zp, l) == z))
        iv = self.c.fresh('sx', I)
        self.c.assume(forall([iv], z3.Implies(z3.And(iv >= 0, iv < llen(l)),
                                              z3.And(z3.Not(z3.Contains(Val.s(lnth(l, iv)), zp)),
                                                     z3.Contains(z, Val.s(lnth(l, iv)))))))
        return SV(Val.List_(l))

    def s_m_rsplit(self, o, sep=None, maxsplit=-1):
        self.unsup('rsplit')

    def s_m_join(self, o, v):
        if isinstance(v, HGen):
            items = self.gen_items(v)
        elif isinstance(v, SV) and (con_of(v.t) == 'List_' or self.c.branch(is_kind(v.t, 'List_'))):
            l = acc('List_', v.t)
            if not self.c.entails(lstr(l)):
                items = self.iterate(v)
            else:
                return SV(Val.Str_(self.JOIN(self.zs(o), l)))
        else:
            items = self.iterate(v)
        if len(items) == 1 and isinstance(items[0], Seq) and items[0].src and items[0].src[0] == 'list':
            l = items[0].src[1]
            iv = self.c.fresh('jx', I)
            allstr = forall([iv], z3.Implies(z3.And(iv >= 0, iv < llen(l)), Val.is_Str_(lnth(l, iv))))
            if not self.c.branch(allstr):
                self.throw(TypeError, 'sequence item: expected str instance')
            self.c.assume(z3.Implies(llen(l) == 0, self.JOIN(self.zs(o), l) == z3.StringVal('')))
            return SV(Val.Str_(self.JOIN(self.zs(o), l)))
        if any(isinstance(i, Seq) for i in items):
            for it in items:
                if isinstance(it, Seq):
                    kv, mem, el = self.generic(it)
                    if not self.c.branch(forall(kv, Imp(mem, is_kind(self.term(el), 'Str_')))):
                        self.throw(TypeError, 'sequence item: expected str instance')
            return SV(Val.Str_(self.c.fresh('join', S)))
        parts = []
        for c, x in items:
            if not self.c.branch(c):
                continue
            if not isinstance(x, str):
                self.zs(x)
            if parts:
                parts.append(o)
            parts.append(x if isinstance(x, str) else SV(Val.Str_(self.zs(x))))
        return self.concat(parts or [''])

    def s_m_format(self, o, *a, **k):
        import string
        if not isinstance(o, str):
            return SV(Val.Str_(self.c.fresh('fmt', S)))
        parts = []
        auto = 0
        try:
            toks = list(string.Formatter().parse(o))
        except ValueError as e:
            self.throw(ValueError, *e.args)
        for lit, field, spec, conv in toks:
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if field == '':
                i = auto
                auto += 1
                if i >= len(a):
                    self.throw(IndexError, 'Replacement index out of range')
                x = a[i]
            elif field.isdigit():
                if int(field) >= len(a):
                    self.throw(IndexError, 'Replacement index out of range')
                x = a[int(field)]
            else:
                if field not in k:
                    if '.' in field or '[' in field:
                        parts.append(SV(Val.Str_(self.c.fresh('fmt', S))))
                        continue
                    self.throw(KeyError, field)
                x = k[field]
            if spec:
                parts.append(SV(Val.Str_(self.c.fresh('fmt', S))))
            else:
                parts.append(self.repr_(x) if conv == 'r' else self.str_(x))
        return self.concat(parts or [''])

    def s_m_encode(self, o, *a, **k):
        return SV(Val.Byt_(self.zs(o)))

    def y_m_decode(self, o, *a, **k):
        return SV(Val.Str_(acc('Byt_', o.t)))

    def s_m_lower(self, o):
        z = self.zs(o)
        return SV(Val.Str_(self.LOWER(z)))

    def s_m_upper(self, o):
        return SV(Val.Str_(self.UPPER(self.zs(o))))

    def s_m_strip(self, o, *a):
        if a:
            self.unsup('strip(chars)')
        return SV(Val.Str_(self.STRIP(self.zs(o))))

    def s_m_rstrip(self, o, ch=' '):
        return SV(Val.Str_(self.RSTRIP(self.zs(o), self.zs(ch))))

    def s_m_lstrip(self, o, ch=' '):
        return SV(Val.Str_(self.LSTRIP(self.zs(o), self.zs(ch))))

    def s_m_replace(self, o, a, b, *n):
        z = self.zs(o)
        f = z3.Function('replace_all', S, S, S, S)
        return SV(Val.Str_(f(z, self.zs(a), self.zs(b))))

    def s_m_isdigit(self, o):
        f = z3.Function('isdigit', S, B)
        return mkbool(f(self.zs(o)))

    def s_m_count(self, o, x):
        f = z3.Function('strcount', S, S, I)
        r = f(self.zs(o), self.zs(x))
        self.c.assume(r >= 0)
        self.c.assume((r > 0) == z3.Contains(self.zs(o), self.zs(x)))
        return mkint(r)

    def s_m_partition(self, o, sep):
        z, zp = self.zs(o), self.zs(sep)
        i = z3.IndexOf(z, zp, z3.IntVal(0))
        n = z3.Length(zp)
        return (mkstr(z3.If(i < 0, z, z3.SubString(z, z3.IntVal(0), i))),
                mkstr(z3.If(i < 0, z3.StringVal(''), zp)),
                mkstr(z3.If(i < 0, z3.StringVal(''), z3.SubString(z, i + n, z3.Length(z) - i - n))))


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    r = getattr(node, '_isgen', None)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            stack.extend(ast.iter_child_nodes(x))
        node._isgen = r
    return r


def worth_merging(node):
    if isinstance(node, ast.Lambda):
        return False
    r = getattr(node, '_merge', None)
    if r is None:
        r = any(isinstance(x, (ast.If, ast.For, ast.While, ast.Try)) for s in node.body
                for x in ast.walk(s))
        node._merge = r
    return r
