"""Symbolic interpreter of the real Python source: produces, per control path,
the hypotheses under which the path is taken and the state it ends in."""
import ast
import builtins
import collections.abc
import enum
import inspect
import io
import logging
import os
import sys
import types
import z3

from .vals import *
from .vals import _norm
from .ctx import *
from .ctx import lstr
from .heap import *
from .heap import serial as heap_serial, _ser


class AnyExc(Exception):
    """an exception of some class not known further"""


class Signal(BaseException):
    pass


class Raise(Signal):
    def __init__(self, exc):
        self.exc = exc


class Ret(Signal):
    def __init__(self, val):
        self.val = val


class Brk(Signal):
    pass


class Cnt(Signal):
    pass


SIGNALS = (Raise, Ret, Brk, Cnt)
UNDEF = object()


class Env(Logged):

    def __init__(self, globs, parent=None, selfcls=None):
        self.vars = {}
        self.parent = parent
        self.globs = globs
        self.selfcls = selfcls
        self.cname = parent.cname if parent is not None else None
        self.globals_decl = set()
        self.cells = {}
        self.yields = None


_SRC = {}


def file_index(fname):
    if fname.startswith('<frozen '):
        fname = os.path.join(os.path.dirname(os.__file__), fname[8:-1] + '.py')
    ix = _SRC.get(fname)
    if ix is None:
        with open(fname, 'rb') as f:
            tree = ast.parse(f.read(), fname)
        ix = {}

        def walk(n, cls):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    ln = c.lineno
                    if getattr(c, 'decorator_list', None):
                        ln = c.decorator_list[0].lineno
                    ix.setdefault((ln, getattr(c, 'name', '<lambda>')), []).append(c)
                    walk(c, cls)
                elif isinstance(c, ast.ClassDef):
                    walk(c, c.name)
                else:
                    walk(c, cls)
        walk(tree, None)
        _SRC[fname] = ix
    return ix


def fn_node(fn):
    co = fn.__code__
    cands = file_index(co.co_filename).get((co.co_firstlineno, co.co_name))
    if not cands:
        raise Unsupported('no source for %s' % fn.__qualname__)
    if len(cands) > 1:
        raise Unsupported('ambiguous source for %s' % fn.__qualname__)
    return cands[0]


def mark_live(node):
    """annotate the branching statements whose outcomes are merged with the names read after them"""
    if getattr(node, '_marked', False):
        return
    node._marked = True
    loads = {}

    def count(n, d):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
                d[x.id] = d.get(x.id, 0) + 1
    for b in node.body:
        count(b, loads)

    def block(stmts, inloop, tail):
        for i, x in enumerate(stmts):
            last = tail and i == len(stmts) - 1
            if isinstance(x, (ast.If, ast.Try)) and not last:
                own = {}
                if not inloop:
                    count(x, own)
                x._live = frozenset(k for k, c in loads.items() if c > own.get(k, 0))
            if isinstance(x, ast.If):
                block(x.body, inloop, last)
                block(x.orelse, inloop, last)
            elif isinstance(x, ast.Try):
                block(x.body, inloop, False)
                for hd in x.handlers:
                    block(hd.body, inloop, last)
                block(x.orelse, inloop, last)
                block(x.finalbody, inloop, False)
            elif isinstance(x, (ast.For, ast.While)):
                block(x.body, True, False)
                block(x.orelse, inloop, False)
            elif isinstance(x, ast.With):
                block(x.body, inloop, False)
    block(node.body, False, True)


SCALARS = (type(None), bool, int, float, str, bytes)
STRM = {m for m in dir(str)}
SIDE_FREE_BUILTINS = set()


def is_intlike(I_, x):
    return isinstance(x, int) or (isinstance(x, SV) and I_.kind(x) in ('Int_', 'Bool_'))


class Base:
    def __init__(self, ctx):
        self.c = ctx
        self.models = {}          # id(real function) -> handler(interp, args, kwargs)
        self.extm = {}            # (ext kind, attr) -> handler
        self.contracts = {}       # id(real function) -> handler
        self.reified = {}
        self.rid = {}
        self.events = []
        self.depth = 0
        self.inline_ok = lambda fn: (fn.__module__ or '').startswith('oidcmsg') or \
            (fn.__module__ or '') in ('collections.abc', '_collections_abc', 'contracts.ghost')
        self.functions_seen = set()
        self.assumed = set()
        self.suppress = {}
        self.class_codes = {}
        self.genericm = {}
        self.loop_focus = []

    # ------------------------------------------------------------------ terms
    def reify(self, o):
        k = id(o)
        i = self.rid.get(k)
        if i is None:
            i = -1000 - len(self.reified)
            self.rid[k] = i
            self.reified[i] = o
        return z3.IntVal(i)

    def term(self, v):
        if isinstance(v, SV):
            return v.t
        if isinstance(v, SB):
            return Val.Bool_(v.b)
        if v is None:
            return NONE
        if isinstance(v, bool):
            return VBool(v)
        if isinstance(v, int):
            return VInt(int(v))
        if isinstance(v, float):
            return Val.Flt_(z3.RealVal(repr(v)))
        if isinstance(v, str):
            return VStr(str(v))
        if isinstance(v, bytes):
            return Val.Byt_(z3.StringVal(v.decode('latin-1')))
        if isinstance(v, (HDict, dict)):
            if isinstance(v, HDict) and v.base is not None and not v.lay:
                return Val.Dict_(v.base)
            return Val.Dict_(self.reify(v))
        if isinstance(v, HList):
            if len(v.items) == 1 and isinstance(v.items[0], Seq) and v.items[0].src is not None \
                    and v.items[0].src[0] == 'list':
                return Val.List_(v.items[0].src[1])
            return Val.List_(self.reify(v))
        if isinstance(v, (list, set, frozenset)):
            return Val.List_(self.reify(v))
        if isinstance(v, HObj) and self.is_message(v):
            return Val.Msg_(self.reify(v))
        if isinstance(v, Poison):
            raise Unsupported('value lost: ' + v.why)
        if isinstance(v, GV):
            raise Unsupported('guarded value used as a term')
        return Val.Obj_(self.reify(v))

    def is_message(self, v):
        return isinstance(v.cls, type) and any(k.__name__ == 'Message' for k in v.cls.__mro__)

    def val(self, t):
        """interpreter value of a term"""
        c = con_of(t)
        if c is None:
            return SV(t)
        if c == 'None_':
            return None
        a = t.arg(0)
        if c == 'Bool_':
            return mkbool(a)
        if c == 'Int_' and z3.is_int_value(a):
            return a.as_long()
        if c == 'Str_' and z3.is_string_value(a):
            return z3str(a)
        if c in ('List_', 'Dict_', 'Msg_', 'Obj_') and z3.is_int_value(a):
            o = self.reified.get(a.as_long())
            if o is not None:
                return o
        return SV(t)

    def termable(self, v):
        return isinstance(v, SCALARS) or isinstance(v, (SV, SB))

    # ------------------------------------------------------------------ errors
    def throw(self, cls, *args):
        raise Raise(HObj(cls, {'args': tuple(args)}))

    def unsup(self, why, node=None):
        if node is not None:
            why += ' (line %s: %s)' % (getattr(node, 'lineno', '?'), ast.unparse(node)[:80])
        raise Unsupported(why)

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        """formula"""
        if isinstance(v, z3.ExprRef):
            return v
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, SB):
            return v.b
        if isinstance(v, SV):
            return truthy(v.t)
        if isinstance(v, (dict, list, set, frozenset)):
            return bool(v)
        if isinstance(v, HDict):
            n = self.dlen(v)
            return n > 0 if not isinstance(n, int) else n > 0
        if isinstance(v, HList):
            n = self.llen(v)
            return n > 0
        if isinstance(v, DictView):
            n = self.dlen(v.d)
            return n > 0
        if isinstance(v, Seq):
            n = self.seqlen(v)
            return n > 0
        if isinstance(v, HObj):
            for m in ('__bool__', '__len__'):
                f = self.class_attr(v.cls, m)
                if f is not UNDEF:
                    r = self.call(BoundMethod(f, v), [], {})
                    return self.truth(r) if m == '__bool__' else self.num_gt0(r)
            return True
        if isinstance(v, Ext):
            h = self.extm.get((v.kind, '__bool__'))
            if h:
                return h(self, v)
            return True
        if isinstance(v, Poison):
            self.unsup('value lost: ' + v.why)
        return True

    def num_gt0(self, r):
        if isinstance(r, int):
            return r > 0
        return intval(r.t) > 0

    def cond(self, v):
        return self.c.branch(self.truth(v))

    def pybool(self, f):
        return mkbool(f)

    # ------------------------------------------------------------------ kinds
    def kind(self, v):
        """definite kind name of a SV (forks)"""
        t = v.t
        c = con_of(t)
        if c:
            return c
        for k in ('Str_', 'List_', 'Dict_', 'Int_', 'Bool_', 'None_', 'Msg_', 'Flt_', 'Byt_'):
            if self.c.branch(is_kind(t, k)):
                return k
        return 'Obj_'

    def view(self, v, meth=None):
        """SV -> more specific interpreter value (forks on kind; on the class of a message too,
        unless only `meth` is wanted, which is the same for every class)"""
        if not isinstance(v, SV):
            return v
        k = self.kind(v)
        t = v.t
        if k == 'None_':
            return None
        if k == 'Bool_':
            return mkbool(acc('Bool_', t))
        if k == 'Dict_':
            x = self.val(Val.Dict_(acc('Dict_', t)))
            if isinstance(x, SV):
                return HDict(base=acc('Dict_', t), frozen=True)
            return x
        if k == 'List_':
            x = self.val(Val.List_(acc('List_', t)))
            if isinstance(x, SV):
                return HList([self.listseq(acc('List_', t))], frozen=True)
            return x
        if k == 'Msg_':
            x = self.val(Val.Msg_(acc('Msg_', t)))
            if isinstance(x, SV):
                return self.msg_view(acc('Msg_', t), meth)
            return x
        if k == 'Obj_':
            x = self.val(Val.Obj_(acc('Obj_', t)))
            if not isinstance(x, SV):
                return x
        return SV(CON[k](acc(k, t))) if con_of(t) is None else v

    def generic_meth(self, name):
        """the method is Message's for every message class and uses nothing but _dict"""
        r = self.genericm.get(name)
        if r is None:
            M = sys.modules['oidcmsg.message'].Message
            f = M.__dict__.get(name)
            r = isinstance(f, types.FunctionType) and all(
                c is M or name not in c.__dict__ for c in self.class_codes.values()) and \
                not any('__getattribute__' in c.__dict__ for c in self.class_codes.values())
            if r:
                fd = fn_node(f)
                me = fd.args.args[0].arg
                uses = [n for n in ast.walk(fd) if isinstance(n, ast.Name) and n.id == me]
                attrs = [n for n in ast.walk(fd) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name)
                         and n.value.id == me and n.attr == '_dict']
                subs = [n for n in ast.walk(fd) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load)
                        and isinstance(n.value, ast.Name) and n.value.id == me]
                r = len(uses) == len(attrs) + len(subs) and (not subs or self.generic_meth('__getitem__'))
            self.genericm[name] = r
        return r

    def msg_view(self, mid, meth=None):
        M = sys.modules['oidcmsg.message'].Message
        cls = M
        if meth is not None and self.generic_meth(meth):
            return HObj(M, {'_dict': HDict(base=mdict(mid), frozen=True)})
        for code, c in sorted(self.class_codes.items(), key=lambda x: x[0]):
            if self.c.branch(mcls(mid) == code):
                cls = c
                break
        o = HObj(cls, {'_dict': HDict(base=mdict(mid), frozen=True), 'lax': False,
                       'jwt': SV(self.c.fval('mjwt')), 'jws_header': SV(self.c.fval('mjws')),
                       'jwe_header': SV(self.c.fval('mjwe'))})
        return o

    # ------------------------------------------------------------------ lists
    def listseq(self, l):
        iv = self.c.fresh('ix', I)
        s = Seq([iv], z3.And(iv >= 0, iv < llen(l)), SV(lnth(l, iv)), src=('list', l),
                ordered=lambda i: SV(lnth(l, i)))
        s.n = llen(l)
        return s

    def memo(self, s, n):
        """remember a length symbol on s until the path is undone"""
        def undo():
            s.n = None

        def redo():
            s.n = n
        s.n = n
        self.c.record(undo, redo, ('memo', s))

    def strseq(self, z):
        iv = self.c.fresh('cx', I)
        s = Seq([iv], z3.And(iv >= 0, iv < z3.Length(z)), SV(Val.Str_(z3.SubString(z, iv, 1))),
                src=('str', z), ordered=lambda i: SV(Val.Str_(z3.SubString(z, i, 1))))
        s.n = z3.Length(z)
        return s

    def seqlen(self, s):
        if s.n is None:
            self.memo(s, self.c.fresh('n', I))
        n = s.n
        if s.src is None or s.src[0] not in ('list', 'str', 'dkeys', 'slice'):
            # 0 <= n, n > 0 iff some element exists
            mem = s.mem
            vs = s.vars
            self.c.assume(n >= 0)
            self.c.assume(z3.Implies(n > 0, z3.Exists(vs, zb(mem))))
            self.c.assume(z3.Implies(n <= 0, z3.ForAll(vs, z3.Not(zb(mem)))))
        return n

    def llen(self, l):
        n = 0
        for it in l.items:
            if isinstance(it, Seq):
                n = n + self.seqlen(it)
            else:
                n = n + (1 if it[0] is True else z3.If(it[0], 1, 0))
        return n

    def generic(self, s):
        """fresh generic element: (vars, mem, elem)"""
        new = [self.c.fresh('k', v.sort()) for v in s.vars]
        sub = list(zip(s.vars, new))
        return new, subst(s.mem, sub), self.subst_val(s.elem, sub)

    def subst_val(self, v, sub):
        if isinstance(v, SV):
            return self.val(z3.simplify(z3.substitute(v.t, *sub))) if False else SV(z3.substitute(v.t, *sub))
        if isinstance(v, SB):
            return SB(z3.substitute(v.b, *sub))
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, sub) for x in v)
        if isinstance(v, SCALARS):
            return v
        if isinstance(v, HObj):
            o = HObj(v.cls, {k: self.subst_val(x, sub) for k, x in v.attrs.items()}, v.tag)
            return o
        if isinstance(v, HDict):
            d = HDict(subst(v.base, sub) if v.base is not None else None, [], v.frozen)
            for e in v.lay:
                if isinstance(e, Ent):
                    d.lay.append(Ent(subst(e.cond, sub), self.subst_val(e.key, sub),
                                     e.val if e.val is DEL else self.subst_val(e.val, sub)))
                else:
                    fn = e.fn

                    def nfn(k, fn=fn):
                        return [(subst(c, sub), x if x is DEL else self.subst_val(x, sub))
                                for c, x in fn(k)]
                    d.lay.append(PLayer(nfn, subst(e.cond, sub)))
            return d
        if isinstance(v, HList):
            items = []
            for it in v.items:
                if isinstance(it, Seq):
                    if it.src is not None and it.src[0] == 'list':
                        items.append(self.listseq(z3.substitute(it.src[1], *sub)))
                        continue
                    s = Seq(it.vars, subst(it.mem, sub), self.subst_val(it.elem, sub), it.distinct)
                    items.append(s)
                else:
                    items.append((subst(it[0], sub), self.subst_val(it[1], sub)))
            return HList(items, v.kind, v.frozen)
        if isinstance(v, Sel):
            return Sel([(subst(c, sub), x) for c, x in v.cases])
        if isinstance(v, type) or callable(v):
            return v
        if isinstance(v, (dict, list)):
            return v
        self.unsup('substitution into %r' % (v,))

    # ------------------------------------------------------------------ dicts
    def dcases(self, d, key):
        """[(cond, val|DEL|None)] exclusive-by-order; last may be base lookup"""
        kt = None
        out = []
        for e in reversed(d.lay):
            if isinstance(e, Ent):
                if isinstance(key, str) and isinstance(e.key, str):
                    if e.key != key:
                        continue
                    c = e.cond
                else:
                    c = And(e.cond, self.keyeq(e.key, key))
                c = _norm(c)
                if c is False:
                    continue
                out.append((c, e.val))
                if c is True:
                    return out
            else:
                for c, v in e.fn(key):
                    c = And(e.cond, c)
                    if c is False:
                        continue
                    out.append((c, v))
                    if c is True:
                        return out
        if d.base is not None:
            kt = self.term(key)
            h = dhas(d.base, kt)
            out.append((h, SV(dget(d.base, kt))))
        return out

    def keyeq(self, a, b):
        if self.termable(a) and self.termable(b):
            return py_eq(self.term(a), self.term(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.keyeq(x, y) for x, y in zip(a, b)])
        if self.termable(a) or self.termable(b):
            return False
        return a is b or (isinstance(a, type(b)) and not isinstance(a, (HObj, HDict, HList)) and a == b)

    def dhasf(self, d, key):
        f = False
        for c, v in reversed(self.dcases(d, key)):
            f = BIte(c, v is not DEL, f)
        return f

    def merge_vals(self, cases):
        """cases [(cond, val)], exclusive by order, exhaustive under the pc."""
        if len(cases) == 1:
            return cases[0][1]
        vs = [v for _, v in cases]
        if all(v is vs[0] for v in vs):
            return vs[0]
        if all(self.termable(v) for v in vs):
            t = self.term(vs[-1])
            for c, v in reversed(cases[:-1]):
                t = Ite(c, self.term(v), t)
            return self.val(t)
        if isinstance(vs[0], tuple) and all(isinstance(v, tuple) and len(v) == len(vs[0]) for v in vs):
            return tuple(self.merge_pos([(c, v[i]) for c, v in cases]) for i in range(len(vs[0])))
        return self.resolve_cases(cases)

    def resolve_cases(self, cases):
        for c, v in cases[:-1]:
            if self.c.branch(c):
                return v
        return cases[-1][1]

    def merge_pos(self, cases):
        vs = [v for _, v in cases]
        if all(v is vs[0] for v in vs):
            return vs[0]
        if all(self.termable(v) for v in vs):
            return self.merge_vals(cases)
        if all(self.selable(v) for v in vs):
            return self.mksel(cases)
        return self.resolve_cases(cases)

    def selable(self, v):
        return isinstance(v, (Sel, type, types.FunctionType)) or v is None or \
            (isinstance(v, (list, tuple)) and len(v) == 1 and isinstance(v[0], type))

    def mksel(self, cases):
        by = []         # (value, conditions) in order
        no = []         # earlier conditions
        for c, v in cases:
            pc = And(c, *[Not(x) for x in no])
            for c2, x in (self.selcases(v) if isinstance(v, Sel) else [(True, v)]):
                for e in by:
                    if e[0] is x:
                        e[1].append(And(pc, c2))
                        break
                else:
                    by.append((x, [And(pc, c2)]))
            no.append(c)
        if len(by) == 1:
            return by[0][0]
        return Sel([(Or(*cs), x) for x, cs in by])

    def selcases(self, v):
        """cases with exclusive conditions"""
        out, no = [], []
        for c, x in v.cases:
            out.append((And(c, *[Not(y) for y in no]), x))
            no.append(c)
        return out

    def resolve(self, v):
        return self.resolve_cases(v.cases) if isinstance(v, Sel) else v

    def dgetv(self, d, key):
        """value under the assumption that key is present"""
        return self.merge_vals([(c, v) for c, v in self.dcases(d, key) if v is not DEL])

    def hashable(self, key):
        if isinstance(key, SV):
            if con_of(key.t) in ('Str_', 'Int_', 'Bool_', 'None_', 'Byt_', 'Flt_'):
                return key
            if self.c.branch(is_kind(key.t, 'List_', 'Dict_', 'Msg_')):
                self.throw(TypeError, 'unhashable type')
            return key
        if isinstance(key, (HDict, HList, dict, list)):
            self.throw(TypeError, 'unhashable type')
        if isinstance(key, HObj) and self.is_message(key):
            self.throw(TypeError, 'unhashable type')
        return key

    def ditem(self, d, key):
        key = self.hashable(key)
        if self.c.branch(self.dhasf(d, key)):
            return self.dgetv(d, key)
        self.throw(KeyError, key)

    def dpush(self, d, lay):
        if d.frozen:
            self.event('write to a container owned by the caller', d)
        d.lay = d.lay + [lay]     # copy-on-write: snapshots stay valid
        old = d.lay[:-1]
        new = d.lay

        def undo():
            d.lay = d.lay[:-1]

        def redo():
            d.lay = d.lay + [lay]
        self.c.record(undo, redo, ('lay', d, lay))

    def dset(self, d, key, val):
        key = self.hashable(key)
        self.dpush(d, Ent(True, key, val))

    def ddel(self, d, key):
        key = self.hashable(key)
        if not self.c.branch(self.dhasf(d, key)):
            self.throw(KeyError, key)
        self.dpush(d, Ent(True, key, DEL))

    def empty_dict(self, d):
        return d.base is None and not d.lay

    def dsnap(self, d):
        n = HDict(d.base, d.lay, False, d.tag)
        n.welltyped = d.welltyped
        return n

    def dupdate(self, d, other):
        other = self.asdict(other)
        if other is d:
            return
        if self.finite(other):
            for cond, k in self.finkeys(other):
                cs = [(c, v) for c, v in self.dcases(other, k) if v is not DEL]
                if cond is True:
                    self.dset(d, k, self.merge_vals(cs))
                else:
                    self.dpush(d, Ent(cond, k, self.merge_vals(cs)))
            return
        o = self.dsnap(other)

        def fn(k):
            out = []
            neg = []
            for c, v in self.dcases(o, k):
                if v is DEL:
                    neg.append(Not(c))
                else:
                    out.append((And(c, *neg), v))
            return out
        self.dpush(d, PLayer(fn))

    def finite(self, d):
        return d.base is None and all(isinstance(e, Ent) for e in d.lay)

    def finkeys(self, d):
        """ordered [(cond, key)] of a dict without symbolic base"""
        keys = []
        for e in d.lay:
            if not any(self.samekey(e.key, k) for k in keys):
                keys.append(e.key)
        # symbolic keys: only when they are provably distinct from the others
        out = []
        for i, k in enumerate(keys):
            h = self.dhasf(d, k)
            if h is False:
                continue
            out.append((h, k))
        syms = [k for k in keys if isinstance(k, (SV, SB))]
        if syms and len(keys) > 1:
            for k in syms:
                for j in keys:
                    if j is not k and self.c.feasible(self.keyeq(k, j)):
                        # fork on aliasing
                        if self.c.branch(self.keyeq(k, j)):
                            out = [(h, x) for h, x in out if x is not k]
                            break
        return out

    def samekey(self, a, b):
        if isinstance(a, (SV, SB)) or isinstance(b, (SV, SB)):
            return self.termable(a) and self.termable(b) and self.term(a).eq(self.term(b))
        return self.keyeq(a, b) is True

    def dlen(self, d):
        if d.base is None and not d.lay:
            return 0
        n = dlen(d.base) if d.base is not None else 0
        cur = HDict(d.base, [])
        for i, e in enumerate(d.lay):
            if isinstance(e, Ent):
                h = self.dhasf(cur, e.key)
                if e.val is DEL:
                    delta = BIte2(And(e.cond, h), -1)
                else:
                    delta = BIte2(And(e.cond, Not(h)), 1)
                n = n + delta
            else:
                if e.n is None:
                    self.memo(e, self.c.fresh('dl', I))
                n = e.n
                nxt = HDict(d.base, d.lay[:i + 1])
                kv = self.c.fresh('k', Val)
                has = self.dhasf(nxt, SV(kv))
                self.c.assume(n >= 0)
                self.c.assume(z3.Implies(n > 0, z3.Exists([kv], zb(has))))
                self.c.assume(z3.Implies(n <= 0, z3.ForAll([kv], z3.Not(zb(has)))))
            cur = HDict(d.base, d.lay[:i + 1])
        return n

    def keyseq(self, d):
        kv = self.c.fresh('dk', Val)
        s = Seq([kv], self.dhasf(d, SV(kv)), SV(kv), distinct=True, src=('dkeys', self.dsnap(d)))
        s.n = self.dlen(d)
        if not d.lay:
            b = d.base
            s.ordered = lambda i: SV(dkey(b, i))
        return s

    # ------------------------------------------------------------------ mutation helpers
    def setvar(self, env, name, val):
        e = env
        if name in env.globals_decl:
            self.event('write to module global %s' % name, None)
        old = e.vars.get(name, UNDEF)
        e.vars[name] = val

        def undo():
            if old is UNDEF:
                e.vars.pop(name, None)
            else:
                e.vars[name] = old

        def redo():
            e.vars[name] = val
        self.c.record(undo, redo, ('var', e, name, val))

    def delvar(self, env, name):
        old = env.vars.get(name, UNDEF)
        if old is UNDEF:
            return
        del env.vars[name]

        def undo():
            env.vars[name] = old

        def redo():
            env.vars.pop(name, None)
        self.c.record(undo, redo, ('var', env, name, UNDEF))

    def setattr_(self, o, name, val):
        if isinstance(o, HObj):
            old = o.attrs.get(name, UNDEF)
            o.attrs[name] = val

            def undo():
                if old is UNDEF:
                    o.attrs.pop(name, None)
                else:
                    o.attrs[name] = old

            def redo():
                o.attrs[name] = val
            self.c.record(undo, redo, ('attr', o, name, val))
            return
        if isinstance(o, Ext):
            h = self.extm.get((o.kind, '=' + name))
            if h:
                return h(self, o, val)
            old = o.f.get(name, UNDEF)
            o.f[name] = val

            def undo():
                if old is UNDEF:
                    o.f.pop(name, None)
                else:
                    o.f[name] = old

            def redo():
                o.f[name] = val
            self.c.record(undo, redo, ('ext', o, name, val))
            return
        if isinstance(o, (type, types.ModuleType)):
            self.event('write to class/module attribute %s' % name, o)
            return
        if isinstance(o, SV):
            v = self.view(o)
            if v is not o:
                return self.setattr_(v, name, val)
        self.unsup('setattr %s on %r' % (name, o))

    def lpush(self, l, item):
        if l.frozen:
            self.event('write to a container owned by the caller', l)
        l.items = l.items + [item]

        def undo():
            l.items = l.items[:-1]

        def redo():
            l.items = l.items + [item]
        self.c.record(undo, redo, ('item', l, item))

    def lreplace(self, l, items):
        if l.frozen:
            self.event('write to a container owned by the caller', l)
        old = l.items
        l.items = items

        def undo():
            l.items = old

        def redo():
            l.items = items
        self.c.record(undo, redo, ('lset', l, items))

    def event(self, what, obj):
        e = (what, obj)
        self.events.append(e)
        n = len(self.events)

        def undo():
            self.events.pop()

        def redo():
            self.events.append(e)
        self.c.record(undo, redo, ('event', e))

    # ------------------------------------------------------------------ containers conversion
    def const2heap(self, v):
        """read-only heap view of a real (constant) container"""
        if isinstance(v, dict):
            d = HDict(None, [Ent(True, k, x) for k, x in v.items()], frozen=True)
            return d
        if isinstance(v, (list, set, frozenset)):
            return HList([(True, x) for x in (v if isinstance(v, list) else sorted(v, key=repr))],
                         'list' if isinstance(v, list) else 'set', frozen=True)
        return v

    def asdict(self, v):
        if isinstance(v, HDict):
            return v
        if isinstance(v, dict):
            return self.const2heap(v)
        if isinstance(v, SV):
            v2 = self.view(v)
            if isinstance(v2, HDict):
                return v2
            if isinstance(v2, HObj):
                return self.asdict(v2)
            if isinstance(v2, (SV,)) or v2 is None or isinstance(v2, (bool, SB)):
                k = 'int'
                if isinstance(v2, SV) and con_of(v2.t) == 'Str_':
                    # dict('') is fine, other strings raise ValueError
                    if self.c.branch(v2.t.arg(0) == z3.StringVal('')):
                        return HDict()
                    self.throw(ValueError, 'dictionary update sequence element')
                self.throw(TypeError, 'object is not iterable')
            v = v2
        if isinstance(v, HObj):
            if '_dict' in v.attrs and self.is_message(v):
                return self.asdict(v.attrs['_dict'])
        if isinstance(v, HList):
            lay = []
            for it in v.items:
                if isinstance(it, Seq):
                    if not (isinstance(it.elem, tuple) and len(it.elem) == 2):
                        self.unsup('dict() of symbolic sequence')
                    lay.append(self.seq2layer(it))
                else:
                    k, x = self.unpack(it[1], 2)
                    lay.append(Ent(it[0], k, x))
            return HDict(None, lay)
        if isinstance(v, DictView) and v.what == 'items':
            return self.dsnap(v.d)
        if isinstance(v, (list, tuple)):
            return self.asdict(HList([(True, x) for x in v]))
        if v is None or isinstance(v, (int, float)):
            self.throw(TypeError, 'object is not iterable')
        self.unsup('as dict: %r' % (v,))

    def seq2layer(self, s):
        """PLayer of a symbolic sequence of (key, value) pairs keyed by the generic key var"""
        kv = s.elem[0]
        if not (isinstance(kv, SV) and len(s.vars) == 1 and kv.t.eq(s.vars[0])):
            self.unsup('symbolic mapping whose key is not the generic key')
        var, mem, val = s.vars[0], s.mem, s.elem[1]

        def fn(k):
            sub = [(var, self.term(k))]
            return [(subst(mem, sub), self.subst_val(val, sub))]
        return PLayer(fn)

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        """-> list of items (cond, value) | Seq"""
        if isinstance(v, HList):
            return list(v.items)
        if isinstance(v, tuple):
            return [(True, x) for x in v]
        if isinstance(v, str):
            return [(True, x) for x in v]
        if isinstance(v, (list, range)):
            return [(True, x) for x in v]
        if isinstance(v, (set, frozenset)):
            return [(True, x) for x in sorted(v, key=repr)]
        if isinstance(v, dict):
            return [(True, x) for x in v]
        if isinstance(v, type({}.items())) or isinstance(v, (type({}.keys()), type({}.values()))):
            return [(True, x) for x in v]
        if isinstance(v, HDict):
            return self.iterate(DictView(v, 'keys'))
        if isinstance(v, DictView):
            d = v.d
            if self.finite(d):
                out = []
                for c, k in self.finkeys(d):
                    if v.what == 'keys':
                        out.append((c, k))
                    else:
                        x = self.merge_vals([(cc, y) for cc, y in self.dcases(d, k) if y is not DEL])
                        out.append((c, x if v.what == 'values' else (k, x)))
                return out
            s = self.keyseq(d)
            if v.what == 'keys':
                return [s]
            key = SV(s.vars[0])
            x = self.merge_vals_nf([(cc, y) for cc, y in self.dcases(d, key) if y is not DEL])
            s.elem = x if v.what == 'values' else (key, x)
            if v.what != 'keys':
                s.ordered = None
            s2 = s
            return [s2]
        if isinstance(v, Seq):
            return [v]
        if isinstance(v, PyIter):
            out = v.items[v.pos:]
            self.setpos(v, len(v.items))
            return out
        if isinstance(v, SV):
            w = self.view(v, '__iter__')
            if isinstance(w, SV):
                k = con_of(w.t) or self.kind(w)
                if k == 'Str_':
                    return [self.strseq(acc('Str_', w.t))]
                if k == 'Obj_':
                    self.unsup('iteration over opaque object')
                self.throw(TypeError, 'object is not iterable')
            return self.iterate(w)
        if isinstance(v, HObj):
            f = self.class_attr(v.cls, '__iter__')
            if f is UNDEF:
                self.throw(TypeError, 'object is not iterable')
            return self.iterate(self.call(BoundMethod(f, v), [], {}))
        if isinstance(v, Ext):
            h = self.extm.get((v.kind, '__iter__'))
            if h:
                return h(self, v)
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return [(True, x) for x in v]
        if v is None or isinstance(v, (bool, int, float, SB)):
            self.throw(TypeError, 'object is not iterable')
        self.unsup('iteration over %r' % (v,))

    def setpos(self, it, new):
        old = it.pos

        def undo():
            it.pos = old

        def redo():
            it.pos = new
        it.pos = new
        self.c.record(undo, redo, ('pos', it))

    def merge_vals_nf(self, cases):
        if len(cases) == 1:
            return cases[0][1]
        vs = [v for _, v in cases]
        t = self.term(vs[-1])
        for c, v in reversed(cases[:-1]):
            t = Ite(c, self.term(v), t)
        return self.val(t)

    def unpack(self, v, n):
        if isinstance(v, SV):
            v = self.view(v)
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                self.throw(ValueError, 'unpack')
            return list(v)
        items = self.iterate(v)
        if any(isinstance(i, Seq) for i in items):
            if len(items) == 1 and items[0].ordered and items[0].n is not None:
                s = items[0]
                if not self.c.branch(s.n == n):
                    self.throw(ValueError, 'unpack')
                return [s.ordered(z3.IntVal(i)) for i in range(n)]
            self.unsup('unpacking a symbolic sequence')
        vals = []
        for c, x in items:
            if self.c.branch(c):
                vals.append(x)
        if len(vals) != n:
            self.throw(ValueError, 'unpack')
        return vals

    # ------------------------------------------------------------------ outcome merging
    def commit(self, o):
        for f in o.conds:
            self.c.assume(f)
        for e in o.redo:
            e[1]()
            self.c.trail.append(e)

    def run_merged(self, thunk, live=None):
        """Explore thunk and merge outcomes of the same kind where the effects allow it.
        Returns the value of an 'ok' outcome; re-raises the other signals.
        live: (env, names) - the only variables of env that are read afterwards"""
        return self.pick(self.c.explore(thunk, SIGNALS), live)

    def pick(self, outs, live=None):
        if not outs:
            raise PathEnd()
        if len(outs) == 1:
            self.commit(outs[0])
            return self.finish(outs[0], live)
        by = {}
        for o in outs:
            if o.kind in ('ok', 'Cnt') and live is None:
                k = 'ok'
            elif o.kind == 'Raise':
                k = ('R', o.val.exc.cls)
            else:
                k = o.kind
            by.setdefault(k, []).append(o)
        groups = []
        for os_ in by.values():
            groups.extend(self.group(os_, live))
        g = groups[self.c.choose(len(groups))]
        if len(g) == 1:
            self.commit(g[0])
            return self.finish(g[0], live)
        return self.merge_group(g, live)

    def finish(self, o, live=None):
        if o.kind == 'ok':
            return o.val
        if o.kind == 'Cnt' and live is None:
            return None
        raise o.val

    def outval(self, o):
        if o.kind == 'ok':
            return o.val
        if o.kind == 'Ret':
            return o.val.val
        return None

    def writes(self, o):
        """effects on objects that existed before the exploration"""
        return [e[2] for e in o.redo if e[2][0] != 'memo' and not self.is_new(e[2], o.ser0)]

    def is_new(self, w, ser0):
        return w[0] not in ('event', 'memo') and w[1].ser > ser0

    def group(self, os_, live=None):
        out = []
        for o in os_:
            placed = False
            if self.simple_writes(o):
                for g in out:
                    if all(self.can_merge(x, o, live) for x in g):
                        g.append(o)
                        placed = True
                        break
            if not placed:
                out.append([o])
        return out

    def simple_writes(self, o):
        return all(w[0] in ('var', 'attr', 'lay', 'item') for w in self.writes(o))

    def can_merge(self, a, b, live=None):
        if not self.simple_writes(a) or not self.simple_writes(b):
            return False
        va, vb = self.outval(a), self.outval(b)
        if a.kind != 'Raise' and not self.mergeable(va, vb):
            return False
        fa, fb = self.finals(a), self.finals(b)
        for k in set(fa) | set(fb):
            obj, name = k[2], k[3]
            cur = (obj.vars if k[0] == 'var' else obj.attrs).get(name, UNDEF)
            x = fa.get(k, cur)
            y = fb.get(k, cur)
            if x is y:
                continue
            if live is not None and k[0] == 'var' and obj is live[0]:
                if name not in live[1]:
                    continue
                if x is UNDEF or y is UNDEF:
                    return False
            if k[0] == 'var' and self.is_soft(obj, name):
                continue
            if (k[0] == 'var' and (x is UNDEF or y is UNDEF)):
                continue
            if x is UNDEF or y is UNDEF or not self.mergeable(x, y):
                return False
        # objects made before the two paths separated
        ser = a.common(b)
        fa, fb = self.newfinals(a, ser), self.newfinals(b, ser)
        if fa is None or fb is None:
            return False
        for k in set(fa) | set(fb):
            obj, name = k[1], k[2]
            cur = obj.attrs.get(name, UNDEF)
            x = fa.get(k, cur)
            y = fb.get(k, cur)
            if x is not y and (x is UNDEF or y is UNDEF or not self.mergeable(x, y)):
                return False
        return True

    def newfinals(self, o, ser):
        f = {}
        for e in o.redo:
            w = e[2]
            if self.is_new(w, o.ser0) and w[1].ser <= ser:
                if w[0] == 'attr':
                    f[(id(w[1]), w[1], w[2])] = w[3]
                elif w[0] not in ('var', 'lay', 'item'):
                    return None
        return f

    soft = None

    def is_soft(self, env, name):
        """a variable that every iteration of the loop assigns before it reads it: where the
        iterations leave values that cannot be merged, reading it afterwards is outside the subset"""
        return self.soft is not None and self.soft[0] is env and not exposed(self.soft[1], name)

    def mergeable(self, x, y):
        if x is y:
            return True
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return all(self.mergeable(p, q) for p, q in zip(x, y))
        if (isinstance(x, Sel) or isinstance(y, Sel)) and self.selable(x) and self.selable(y):
            return True
        return self.termable(x) and self.termable(y)

    def finals(self, o):
        f = {}
        for w in self.writes(o):
            if w[0] in ('var', 'attr'):
                f[(w[0], id(w[1]), w[1], w[2])] = w[3]
        return f

    def merge_group(self, g, live=None):
        c = self.c
        pcs = [o.guard for o in g]
        c.assume(Or(*[o.pc for o in g]))
        shared = {}         # id -> (object, outcomes that have it, writes per outcome)
        common = [[-1 if i == j else g[i].common(g[j]) for j in range(len(g))] for i in range(len(g))]
        for j, o in enumerate(g):
            for e in o.redo:
                w = e[2]
                if self.is_new(w, o.ser0):
                    sh = shared.get(id(w[1]))
                    if sh is None:
                        ks = [k for k in range(len(g)) if k == j or w[1].ser <= common[j][k]]
                        sh = shared[id(w[1])] = (w[1], ks, {k: [] for k in ks})
                    if len(sh[1]) == 1:
                        e[1]()
                        c.trail.append(e)
                    else:
                        sh[2][j].append(w)
                else:
                    self.guarded(w, pcs[j])
        for obj, ks, ws in shared.values():
            if len(ks) > 1:
                self.merge_new(obj, [pcs[k] for k in ks], [ws[k] for k in ks])
        locs = {}
        for j, o in enumerate(g):
            for k, v in self.finals(o).items():
                locs.setdefault(k, {})[j] = v
        for k, vals in locs.items():
            obj, name = k[2], k[3]
            cur = (obj.vars if k[0] == 'var' else obj.attrs).get(name, UNDEF)
            vs = [vals.get(j, cur) for j in range(len(g))]
            if live is not None and k[0] == 'var' and obj is live[0] and name not in live[1]:
                nv = Poison('dead ' + name)
            elif k[0] == 'var' and self.is_soft(obj, name) and any(
                    v is not vs[0] and not (v is not UNDEF and vs[0] is not UNDEF and self.mergeable(v, vs[0]))
                    for v in vs):
                nv = Poison('stale ' + name)
            else:
                nv = self.merge_any(pcs, vs, name)
            if k[0] == 'var':
                if nv is UNDEF:
                    self.delvar(obj, name)
                else:
                    self.setvar(obj, name, nv)
            else:
                self.setattr_(obj, name, nv)
        o = g[0]
        if o.kind == 'Raise':
            raise Raise(o.val.exc)
        if o.kind == 'Brk':
            raise Brk()
        if o.kind == 'Cnt' and live is not None:
            raise Cnt()
        v = self.merge_any(pcs, [self.outval(x) for x in g], 'result')
        if o.kind == 'Ret':
            raise Ret(v)
        return v

    def guarded(self, w, pc):
        if w[0] == 'lay':
            d, x = w[1], w[2]
            if isinstance(x, Ent):
                n = Ent(And(pc, x.cond), x.key, x.val)
            else:
                n = PLayer(x.fn, And(pc, x.cond))
            self.dpush(d, n)
        elif w[0] == 'item':
            l, it = w[1], w[2]
            if isinstance(it, Seq):
                n = Seq(it.vars, And(pc, it.mem), it.elem, it.distinct, None)
            else:
                n = (And(pc, it[0]), it[1])
            self.lpush(l, n)

    def merge_new(self, obj, pcs, seqs):
        """effects on an object that the paths made before they separated"""
        names = {}
        for j, ws in enumerate(seqs):
            for w in ws:
                if w[0] in ('var', 'attr'):
                    names.setdefault((w[0], w[2]), {})[j] = w[3]
        for (kind, name), vals in names.items():
            cur = (obj.vars if kind == 'var' else obj.attrs).get(name, UNDEF)
            nv = self.merge_any(pcs, [vals.get(j, cur) for j in range(len(seqs))], name)
            if kind == 'attr':
                self.setattr_(obj, name, nv)
            elif nv is UNDEF:
                if name in obj.vars:
                    self.delvar(obj, name)
            else:
                self.setvar(obj, name, nv)
        for kind in ('lay', 'item'):
            ws = [[w for w in s if w[0] == kind] for s in seqs]
            n = 0
            while all(len(s) > n for s in ws) and all(self.same_write(kind, ws[0][n][2], s[n][2]) for s in ws[1:]):
                x = ws[0][n][2]
                if kind == 'lay':
                    self.dpush(obj, x)
                else:
                    self.lpush(obj, x)
                n += 1
            for pc, s in zip(pcs, ws):
                for w in s[n:]:
                    self.guarded(w, pc)

    def same_write(self, kind, a, b):
        if a is b:
            return True
        if kind == 'lay':
            return isinstance(a, Ent) and isinstance(b, Ent) and self.same_val(a.cond, b.cond) and \
                self.same_val(a.key, b.key) and self.same_val(a.val, b.val)
        return isinstance(a, tuple) and isinstance(b, tuple) and self.same_val(a[0], b[0]) and self.same_val(a[1], b[1])

    def same_val(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, (str, int, bytes)):
            return a == b
        if isinstance(a, SV):
            return a.t.eq(b.t)
        if isinstance(a, SB):
            return self.same_val(a.b, b.b)
        if z3.is_expr(a):
            return a.eq(b)
        return False

    def merge_any(self, pcs, vs, name):
        if all(v is vs[0] for v in vs):
            return vs[0]
        if any(v is UNDEF for v in vs):
            return Poison('conditionally assigned ' + name)
        if all(isinstance(v, tuple) and len(v) == len(vs[0]) for v in vs if isinstance(vs[0], tuple)) \
                and isinstance(vs[0], tuple):
            return tuple(self.merge_any(pcs, [v[i] for v in vs], name) for i in range(len(vs[0])))
        if all(self.termable(v) for v in vs):
            return self.merge_vals(list(zip(pcs, vs)))
        if any(isinstance(v, Sel) for v in vs) and all(self.selable(v) for v in vs):
            return self.mksel(list(zip(pcs, vs)))
        return Poison('merged ' + name)

    # ------------------------------------------------------------------ statements
    def exec(self, stmts, env):
        for s in stmts:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                self.unsup('statement ' + type(s).__name__, s)
            m(s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                mod = sys.modules[a.name]
            self.setvar(env, a.asname or a.name.split('.')[0], mod)

    def s_ImportFrom(self, s, env):
        if s.level:
            self.unsup('relative import in function', s)
        mod = __import__(s.module, fromlist=['x'])
        for a in s.names:
            self.setvar(env, a.asname or a.name, getattr(mod, a.name))

    def s_Global(self, s, env):
        env.globals_decl |= set(s.names)

    def s_Nonlocal(self, s, env):
        self.unsup('nonlocal', s)

    def s_Assert(self, s, env):
        if not self.cond(self.ev(s.test, env)):
            self.throw(AssertionError)

    def s_Return(self, s, env):
        raise Ret(self.ev(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise Brk()

    def s_Continue(self, s, env):
        raise Cnt()

    def s_If(self, s, env):
        c = _norm(self.truth(self.ev(s.test, env)))

        def run():
            if self.c.branch(c):
                self.exec(s.body, env)
            else:
                self.exec(s.orelse, env)
        live = getattr(s, '_live', None)
        if c is True or c is False or live is None or c.get_id() in self.c.pcset or \
                Not(c).get_id() in self.c.pcset:
            return run()
        self.run_merged(run, (env, live))

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr_(o, t.attr)
        else:
            o = self.ev(t.value, env)
            ix = self.ev(t.slice, env)
            cur = self.getitem(o, ix)
        rhs = self.ev(s.value, env)
        if isinstance(cur, HList) and isinstance(s.op, ast.Add):
            for it in self.iterate(rhs):
                self.lpush(cur, it)
            v = cur
        else:
            if isinstance(cur, (list, dict, set)) and isinstance(s.op, (ast.Add, ast.BitOr)):
                self.event('in-place update of shared constant', cur)
            v = self.binop(s.op, cur, rhs)
        if isinstance(t, ast.Name):
            self.setvar(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(o, t.attr, v)
        else:
            self.setitem(o, ix, v)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.delvar(env, t.id)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, HObj) and t.attr in o.attrs:
                    old = o.attrs.pop(t.attr)
                    self.c.record(lambda: o.attrs.__setitem__(t.attr, old),
                                  lambda: o.attrs.pop(t.attr, None), ('attrdel', o, t.attr))
                else:
                    self.unsup('del attribute', s)
            else:
                self.unsup('del', s)

    def s_Raise(self, s, env):
        if s.exc is None:
            if not self.cur_exc:
                self.throw(RuntimeError, 'No active exception')
            raise Raise(self.cur_exc[-1])
        e = self.ev(s.exc, env)
        if s.cause is not None:
            self.ev(s.cause, env)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, [], {})
        if isinstance(e, HObj) and isinstance(e.cls, type) and issubclass(e.cls, BaseException):
            raise Raise(e)
        self.throw(TypeError, 'exceptions must derive from BaseException')

    cur_exc = []

    def s_Try(self, s, env):
        def run_handlers():
            try:
                self.exec(s.body, env)
            except Raise as r:
                for h in s.handlers:
                    if self.match_exc(r.exc, h, env):
                        if h.name:
                            self.setvar(env, h.name, r.exc)
                        self.cur_exc = self.cur_exc + [r.exc]
                        try:
                            self.exec(h.body, env)
                        finally:
                            self.cur_exc = self.cur_exc[:-1]
                        return
                raise
            self.exec(s.orelse, env)
        if not s.finalbody:
            live = getattr(s, '_live', None)
            if live is None:
                return run_handlers()
            return self.run_merged(run_handlers, (env, live))
        try:
            run_handlers()
        except Signal:
            self.exec(s.finalbody, env)
            raise
        self.exec(s.finalbody, env)

    def match_exc(self, exc, h, env):
        if h.type is None:
            return True
        t = self.ev(h.type, env)
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, type) and issubclass(exc.cls, x):
                return True
            if not isinstance(x, type):
                self.unsup('except clause', h)
            if exc.cls is AnyExc and issubclass(x, Exception) and self.c.choose(2):
                return True
        return False

    def s_With(self, s, env):
        mgrs = []

        def rec(i):
            if i == len(s.items):
                self.exec(s.body, env)
                return
            it = s.items[i]
            m = self.ev(it.context_expr, env)
            ent = self.call(self.getattr_(m, '__enter__'), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, env)
            try:
                rec(i + 1)
            except Raise as r:
                x = self.call(self.getattr_(m, '__exit__'), [r.exc.cls, r.exc, None], {})
                if not self.cond(x):
                    raise
                return
            except Signal:
                self.call(self.getattr_(m, '__exit__'), [None, None, None], {})
                raise
            self.call(self.getattr_(m, '__exit__'), [None, None, None], {})
        rec(0)

    def s_FunctionDef(self, s, env):
        f = self.mkfunc(s, env)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, env), [f], {})
        self.setvar(env, s.name, f)

    def s_ClassDef(self, s, env):
        self.unsup('class definition inside a function', s)

    def mkfunc(self, s, env):
        a = s.args
        return HFunc(s, env, env.globs, getattr(s, 'name', '<lambda>'),
                     [self.ev(d, env) for d in a.defaults],
                     {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None},
                     env.selfcls)

    def s_While(self, s, env):
        n = 0
        while True:
            if not self.cond(self.ev(s.test, env)):
                self.exec(s.orelse, env)
                return
            n += 1
            if n > 64:
                self.unsup('while loop not bounded by constants', s)
            try:
                self.exec(s.body, env)
            except Brk:
                return
            except Cnt:
                continue

    def s_For(self, s, env):
        items = self.iterate(self.ev(s.iter, env))
        names = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}

        def body(x):
            self.assign(s.target, x, env)
            self.exec(s.body, env)
        try:
            self.loop(items, body, env, names, s.body)
        except Brk:
            return
        self.exec(s.orelse, env)

    def loop(self, items, body, env, targets, bodyast):
        i = 0
        while i < len(items):
            if isinstance(items[i], Seq):
                self.seq_loop(items[i], body, env, targets, bodyast)
                i += 1
            else:
                j = i
                while j < len(items) and not isinstance(items[j], Seq):
                    j += 1
                self.conc_loop(items[i:j], body, env, bodyast)
                i = j

    def conc_loop(self, items, body, env=None, bodyast=None):
        """Loop over known elements.  Each iteration is explored on its own; exceptions leave
        the loop with the exact condition `earlier iterations normal and this one raises`."""
        c = self.c
        if not items:
            return
        stash = {}

        def thunk():
            npc, tm, ser0, nf0 = len(c.pc), len(c.trail), heap_serial(), len(c.flog)
            for n, (cond, x) in enumerate(items):
                def one():
                    if c.branch(cond):
                        body(x)
                ser = heap_serial()
                outs = c.explore(one, SIGNALS)
                keep = []
                for o in outs:
                    if o.kind == 'Raise' and self.simple_writes(o) and len(outs) > 1:
                        conds = list(c.pc[npc:]) + o.conds
                        key = (n, o.val.exc.cls, And(*conds).get_id() if conds else 0)
                        dec = [(d[0], d[4]) for d in c.frames[-1].dec] + [(('stash', n, key), ser)]
                        # the effects of the earlier iterations stay
                        redo = list(c.trail[tm:]) + list(o.redo)
                        stash[key] = Outcome('Raise', o.val, conds, redo, ser0, nf0, conds, dec)
                    else:
                        keep.append(o)
                if not keep:
                    raise PathEnd()
                was, c.alldec = c.alldec, c.alldec or len(keep) < len(outs)
                wsoft, self.soft = self.soft, (env, bodyast) if bodyast else None
                try:
                    self.pick(keep)
                finally:
                    c.alldec = was
                    self.soft = wsoft
        outs = c.explore(thunk, SIGNALS)
        e = c._replay('stash')
        if e is None:
            e = ('stash', list(stash.values()))
            c._logit(e)
        return self.pick(outs + e[1])

    # -- loop over a symbolic sequence: pointwise rule (DESIGN, "loops")
    def seq_loop(self, seq, body, env, targets, bodyast):
        c = self.c
        kv, mem, elem = self.generic(seq)
        nf0 = len(c.flog)
        ser0 = heap_serial()

        def thunk():
            c.assume(mem)
            body(elem)
        if isinstance(mem, bool):
            if not mem:
                return
        outs = c.explore(thunk, SIGNALS)
        normal, abn = self.split(outs)
        dicts, lists, carried, temps = self.loop_writes(normal, env, targets, bodyast)
        if dicts or carried or lists:
            outs, carried = self.second_pass(seq, kv, thunk, dicts, lists, carried)
            normal, abn = self.split(outs)
        sk = self.skolems(nf0, kv)
        # conditions as functions of the element
        npc = [subst(And(*[f for f in o.conds]), sk) for o in normal]
        N = Or(*npc)
        flag = None
        if carried.get('flags'):
            flag = carried['flags']
        alts = [('normal', None)]
        for g in self.group_abn(abn):
            alts.append(('abn', g))
        if flag:
            alts.append(('flag', None))
        k = c.choose(len(alts))
        what, g = alts[k]
        allnorm = forall(kv, Imp(mem, N))
        if what == 'normal':
            if abn or flag or dicts or lists or carried:
                c.assume(allnorm)
            self.loop_effects(seq, kv, mem, normal, npc, sk, dicts, lists, True)
            self.after_loop(env, targets, temps, carried)
            return
        # abnormal exit at a witness element; earlier elements completed normally
        before = z3.Function(c.fresh('before', B).decl().name(), *([v.sort() for v in kv] + [B]))
        bf = before(*kv)
        if dicts or lists:
            new = [c.fresh('w', v.sort()) for v in kv]
            c.assume(forall(kv, Imp(And(mem, bf), N)))
            self.loop_effects(seq, kv, And(mem, bf), normal, npc, sk, dicts, lists, False)
            c.assume(z3.Not(bf))
        self.after_loop(env, targets, temps, carried)
        if len(g) == 1:
            self.commit(g[0])
            return self.finish(g[0])
        return self.merge_group(g)

    def split(self, outs):
        return ([o for o in outs if o.kind in ('ok', 'Cnt')],
                [o for o in outs if o.kind not in ('ok', 'Cnt')])

    def group_abn(self, abn):
        by = {}
        for o in abn:
            k = ('R', o.val.exc.cls) if o.kind == 'Raise' else o.kind
            by.setdefault(k, []).append(o)
        out = []
        for os_ in by.values():
            out.extend(self.group(os_))
        return out

    def skolems(self, nf0, kv):
        """symbols introduced while exploring the body become functions of the element"""
        sk = []
        ids = {v.get_id() for v in kv}
        for x in self.c.flog[nf0:]:
            if x.get_id() in ids:
                continue
            f = z3.Function('sk_%s' % x.decl().name(), *([v.sort() for v in kv] + [x.sort()]))
            sk.append((x, f(*kv)))
        return sk

    def loop_writes(self, normal, env, targets, bodyast):
        dicts, lists, carried, temps = {}, {}, {}, set()
        for o in normal:
            fin = self.finals(o)
            for w in self.writes(o):
                if w[0] == 'lay':
                    dicts[id(w[1])] = w[1]
                elif w[0] == 'item':
                    lists[id(w[1])] = w[1]
                elif w[0] == 'var':
                    e, name = w[1], w[2]
                    if e is env and name in targets:
                        temps.add((e, name))
                        continue
                    cur = e.vars.get(name, UNDEF)
                    if fin[('var', id(e), e, name)] is cur:
                        continue
                    if cur is UNDEF or (e is env and not exposed(bodyast, name)):
                        temps.add((e, name))
                        continue
                    carried.setdefault(('var', id(e), e, name), []).append(
                        fin[('var', id(e), e, name)])
                elif w[0] == 'attr':
                    e, name = w[1], w[2]
                    cur = e.attrs.get(name, UNDEF)
                    if fin[('attr', id(e), e, name)] is cur:
                        continue
                    carried.setdefault(('attr', id(e), e, name), []).append(
                        fin[('attr', id(e), e, name)])
                elif w[0] == 'event':
                    pass
                else:
                    self.unsup('loop body effect %s' % (w[0],))
        return dicts, lists, carried, temps

    def setloc(self, k, v):
        if k[0] == 'var':
            self.setvar(k[2], k[3], v)
        else:
            self.setattr_(k[2], k[3], v)

    def second_pass(self, seq, kv, thunk, dicts, lists, carried):
        """re-explore the body with the effects of earlier iterations visible.  A carried variable
        that every normal iteration provably leaves at its initial value is kept (inferred
        invariant, checked again in the state after any number of earlier iterations)"""
        c = self.c
        keep = set()
        for k, vals in carried.items():
            if not isinstance(k, tuple):
                continue
            cur = (k[2].vars if k[0] == 'var' else k[2].attrs).get(k[3])
            if self.termable(cur):
                keep.add(k)

        def run():
            hav = [k for k in carried if k not in keep]

            def thunk2():
                for d in dicts.values():
                    self.dpush(d, self.focus_layer(d, kv, seq))
                for k in hav:
                    cur = (k[2].vars if k[0] == 'var' else k[2].attrs).get(k[3])
                    if not self.termable(cur):
                        self.unsup('loop-carried value %s' % (k[3],))
                    v = c.fval('h_' + k[3])
                    vals = carried[k] + [cur]
                    if all(self.termable(x) and con_of(self.term(x)) for x in vals):
                        ks = {con_of(self.term(x)) for x in vals}
                        if len(ks) == 1:
                            c.assume(is_kind(v, ks.pop()))
                    self.setloc(k, SV(v))
                for l in lists.values():
                    l.locked = True
                try:
                    thunk()
                finally:
                    for l in lists.values():
                        l.locked = False
            outs = c.explore(thunk2, SIGNALS)
            # drop the bookkeeping layers / havoc writes from the effects
            res = []
            for o in outs:
                skip = len(dicts) + len(hav)
                res.append(Outcome(o.kind, o.val, o.conds, o.redo[skip:], o.ser0, o.nf0, o.decs, o.dec))
            return res
        while True:
            res = run()
            bad = set()
            for o in self.split(res)[0]:
                fin = self.finals(o)
                for k in keep - bad:
                    v = fin.get(k)
                    cur = (k[2].vars if k[0] == 'var' else k[2].attrs).get(k[3])
                    if v is None and k not in fin or v is cur:
                        continue
                    if not self.termable(v) or not self.same_under(And(*o.conds), self.term(v), self.term(cur)):
                        bad.add(k)
            if not bad:
                break
            keep -= bad
        return res, {k: v for k, v in carried.items() if k not in keep}

    def focus_layer(self, d, kv, seq):
        c = self.c
        n = c.fresh('focus', B).decl().name()
        hs = z3.Function('hs!' + n, Val, B)
        hd = z3.Function('hd!' + n, Val, B)
        hval = z3.Function('hv!' + n, Val, Val)
        own = kv[0] if len(kv) == 1 and kv[0].sort() == Val and seq.distinct else None

        def fn(k):
            t = self.term(k)
            if own is not None:
                ne = Not(Eq(t, own)) if not t.eq(own) else False
                if ne is False:
                    return []
            else:
                ne = True
            return [(And(ne, hs(t)), SV(hval(t))), (And(ne, hd(t)), DEL)]
        return PLayer(fn)

    def loop_effects(self, seq, kv, mem, normal, npc, sk, dicts, lists, complete):
        c = self.c
        for d in dicts.values():
            writes = []
            ok = len(kv) == 1 and kv[0].sort() == Val and seq.distinct
            for o, pc in zip(normal, npc):
                for w in self.writes(o):
                    if w[0] == 'lay' and w[1] is d:
                        e = w[2]
                        if not isinstance(e, Ent) or not self.termable(e.key):
                            ok = False
                            continue
                        kt = self.term(e.key)
                        if not kt.eq(kv[0]):
                            # the same key under the path condition?
                            ok = ok and self.same_under(And(mem, *o.conds), kt, kv[0])
                        writes.append((And(pc, subst(e.cond, sk)),
                                       e.val if e.val is DEL else self.subst_val(e.val, sk)))
            if not ok:
                self.dpush(d, self.focus_layer(d, [], seq))
                continue
            # later writes win: reverse order
            writes.reverse()
            self.dpush(d, PLayer(self.pw(kv[0], mem, writes)))
        for l in lists.values():
            segs = []
            per = []
            for o, pc in zip(normal, npc):
                cnt = 0
                for w in self.writes(o):
                    if w[0] == 'item' and w[1] is l:
                        cnt += 1
                        it = w[2]
                        if isinstance(it, Seq):
                            self.unsup('nested symbolic extension in loop')
                        segs.append((And(mem, pc, subst(it[0], sk)), self.subst_val(it[1], sk),
                                     it[0] is True))
                per.append(cnt)
            if all(self.termable(v) for _, v, _ in segs) and len(segs) > 1:
                ev = self.merge_vals_nf([(cn, v) for cn, v, _ in segs])
                segs = [(Or(*[cn for cn, _, _ in segs]), ev, all(u for _, _, u in segs))]
            for cn, v, uncond in segs:
                ns = Seq(list(kv), cn, v, seq.distinct and len(kv) == 1 and all(p <= 1 for p in per) and
                         isinstance(v, SV) and v.t.eq(kv[0]))
                if complete and uncond and len(segs) == 1 and all(p == 1 for p in per):
                    ns.n = self.seqlen(seq)
                    ns.src = ('map',)
                    ns.mem = mem
                    if kv[0].sort() == I:
                        ns.ordered = self.mkordered(kv, v)
                self.lpush(l, ns)

    def mkordered(self, kv, v):
        return lambda i: self.subst_val(v, [(kv[0], i)])

    def same_under(self, cond, a, b):
        # first with the quantifier-free hypotheses only
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*self.c.solver.assertions())
        cs = cond.children() if z3.is_expr(cond) and z3.is_and(cond) else [cond]
        s.add(*[zb(x) for x in cs if isinstance(x, bool) or not self.c.has_q(x)])
        s.add(zb(a != b))
        if s.check() == z3.unsat:
            return True
        self.c.push()
        try:
            self.c._add(zb(cond))
            self.c._add(zb(a != b))
            return self.c._check() == z3.unsat
        finally:
            self.c.pop()

    def pw(self, var, mem, writes):
        def fn(k):
            sub = [(var, self.term(k))]
            return [(And(subst(mem, sub), subst(cn, sub)),
                     v if v is DEL else self.subst_val(v, sub)) for cn, v in writes]
        return fn

    def after_loop(self, env, targets, temps, carried):
        for e, name in temps:
            if name in e.vars:
                self.setvar(e, name, Poison('assigned in a symbolic loop: ' + name))
        for t in targets:
            if t in env.vars:
                self.setvar(env, t, Poison('loop variable after the loop: ' + t))
        for k in carried:
            cur = (k[2].vars if k[0] == 'var' else k[2].attrs).get(k[3])
            v = self.c.fval('l_' + k[3])
            vals = carried[k] + [cur]
            if all(self.termable(x) and con_of(self.term(x)) for x in vals):
                ks = {con_of(self.term(x)) for x in vals}
                if len(ks) == 1:
                    self.c.assume(is_kind(v, ks.pop()))
            self.setloc(k, SV(v))

    # ------------------------------------------------------------------ assignment targets
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals_decl:
                self.event('write to module global %s' % t.id, None)
                return
            self.setvar(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                self.unsup('starred assignment', t)
            for e, x in zip(t.elts, self.unpack(v, len(t.elts))):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            self.unsup('assignment target', t)

    # ------------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    self.unsup('value lost: ' + v.why)
                return v
            if name in e.cells:
                return e.cells[name]
            e = e.parent
        if name in env.globs:
            return env.globs[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        if self.is_local(name, env):
            self.throw(UnboundLocalError, name)
        self.throw(NameError, name)

    def is_local(self, name, env):
        return False

    # ------------------------------------------------------------------ expressions
    def ev(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.unsup('expression ' + type(n).__name__, n)
        v = m(n, env)
        return self.resolve(v) if isinstance(v, Sel) else v

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Tuple(self, n, env):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                for c, x in self.iterate(self.ev(e.value, env)):
                    out.append(x)
            else:
                out.append(self.ev(e, env))
        return tuple(out)

    def e_List(self, n, env):
        items = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                items.extend(self.iterate(self.ev(e.value, env)))
            else:
                items.append((True, self.ev(e, env)))
        return HList(items)

    def e_Set(self, n, env):
        l = self.e_List(n, env)
        l.kind = 'set'
        return l

    def e_Dict(self, n, env):
        d = HDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dupdate(d, self.ev(v, env))
            else:
                kk = self.ev(k, env)
                self.dset(d, kk, self.ev(v, env))
        return d

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Lambda(self, n, env):
        return self.mkfunc(n, env)

    def e_IfExp(self, n, env):
        c = self.truth(self.ev(n.test, env))
        if c is True or c is False:
            return self.ev(n.body if c else n.orelse, env)

        def thunk():
            if self.c.branch(c):
                return self.ev(n.body, env)
            return self.ev(n.orelse, env)
        return self.run_merged(thunk)

    def e_BoolOp(self, n, env):
        def rec(i):
            v = self.ev(n.values[i], env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And):
                if t is False:
                    return v
                if t is True:
                    return rec(i + 1)
                if isinstance(v, SB):
                    # merge two-valued results
                    def thunk():
                        if self.c.branch(t):
                            return rec(i + 1)
                        return False
                    return self.run_merged(thunk)
                if self.c.branch(t):
                    return rec(i + 1)
                return v
            if t is True:
                return v
            if t is False:
                return rec(i + 1)
            if isinstance(v, SB):
                def thunk():
                    if self.c.branch(t):
                        return True
                    return rec(i + 1)
                return self.run_merged(thunk)
            if self.c.branch(t):
                return v
            return rec(i + 1)
        return rec(0)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return mkbool(Not(self.truth(v)))
        if isinstance(v, (int, float)):
            return -v if isinstance(n.op, ast.USub) else (+v if isinstance(n.op, ast.UAdd) else ~v)
        if isinstance(v, SB):
            v = SV(self.term(v))
        if isinstance(v, SV):
            if isinstance(n.op, ast.USub):
                if self.c.branch(is_kind(v.t, 'Int_', 'Bool_')):
                    return SV(Val.Int_(-intval(v.t)))
                if self.c.branch(is_kind(v.t, 'Flt_')):
                    return SV(Val.Flt_(-acc('Flt_', v.t)))
                self.throw(TypeError, 'bad operand type for unary -')
        self.unsup('unary', n)

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(n.op, a, b)

    def e_Compare(self, n, env):
        a = self.ev(n.left, env)
        res = True
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            if i and not self.c.branch(self.truth(res)):
                return res
            b = self.ev(r, env)
            res = self.compare(op, a, b)
            a = b
        return res

    def e_Attribute(self, n, env):
        return self.getattr_(self.ev(n.value, env), self.mangle(n.attr, env))

    def mangle(self, a, env):
        if a.startswith('__') and not a.endswith('__') and env.cname and env.cname != '<locals>':
            return '_%s%s' % (env.cname.lstrip('_'), a)
        return a

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, env) if n.slice.lower else None
            hi = self.ev(n.slice.upper, env) if n.slice.upper else None
            st = self.ev(n.slice.step, env) if n.slice.step else None
            return self.getslice(o, lo, hi, st)
        return self.getitem(o, self.ev(n.slice, env))

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                if v.format_spec is not None:
                    parts.append(SV(Val.Str_(self.c.fresh('fmt', S))))
                else:
                    parts.append(self.repr_(x) if v.conversion == 114 else self.str_(x))
        return self.concat(parts)

    def concat(self, parts):
        zs = []
        for p in parts:
            if isinstance(p, str):
                zs.append(z3.StringVal(p))
            else:
                zs.append(acc('Str_', p.t))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return SV(Val.Str_(z3.Concat(*zs) if len(zs) > 1 else zs[0]))

    def e_Starred(self, n, env):
        self.unsup('starred', n)

    def e_Slice(self, n, env):
        return slice(*[self.ev(x, env) if x else None for x in (n.lower, n.upper, n.step)])

    def e_Yield(self, n, env):
        e = env
        v = self.ev(n.value, env) if n.value else None
        while e.yields is None:
            e = e.parent
        self.lpush(e.yields, (True, v))
        return None

    def e_YieldFrom(self, n, env):
        for it in self.iterate(self.ev(n.value, env)):
            self.lpush(env.yields, it)

    def e_Await(self, n, env):
        self.unsup('await', n)

    # -- comprehensions
    def e_ListComp(self, n, env):
        l = HList()
        self.comp(n, env, lambda e: self.lpush(l, (True, self.ev(n.elt, e))))
        return l

    def e_SetComp(self, n, env):
        l = HList(kind='set')
        self.comp(n, env, lambda e: self.lpush(l, (True, self.ev(n.elt, e))))
        return l

    def e_DictComp(self, n, env):
        d = HDict()

        def add(e):
            k = self.ev(n.key, e)
            self.dset(d, k, self.ev(n.value, e))
        self.comp(n, env, add)
        return d

    def e_GeneratorExp(self, n, env):
        # first iterable is evaluated eagerly
        first = self.ev(n.generators[0].iter, env)
        return HGen(n, env, first)

    def comp(self, n, env, sink, first=UNDEF):
        gens = n.generators

        def rec(i, e):
            if i == len(gens):
                sink(e)
                return
            g = gens[i]
            it = first if (i == 0 and first is not UNDEF) else self.ev(g.iter, e)
            items = self.iterate(it)
            ne = Env(e.globs, e, e.selfcls)
            names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}

            def body(x):
                # a fresh environment per element
                be = Env(e.globs, e, e.selfcls)
                self.assign(g.target, x, be)
                for c in g.ifs:
                    if not self.cond(self.ev(c, be)):
                        return
                rec(i + 1, be)
            if all(not isinstance(x, Seq) and x[0] is True for x in items) and \
                    len(items) <= 1:
                for _, x in items:
                    body(x)
            else:
                self.loop(items, body, ne, names, [])
        rec(0, env)

    def gen_items(self, g):
        """iterate a generator object fully"""
        l = HList()
        self.comp(g.node, g.env, lambda e: self.lpush(l, (True, self.ev(g.node.elt, e))), g.first)
        return list(l.items)

    # ------------------------------------------------------------------ operators
    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            self.unsup('value lost')
        num_ = (int, float)
        if isinstance(a, num_) and isinstance(b, num_) or \
                isinstance(a, (str, bytes, tuple)) and isinstance(b, (str, bytes, tuple, int)) and \
                not isinstance(op, ast.Mod) and self.plain(a) and self.plain(b):
            return self.native_binop(op, a, b)
        if isinstance(op, ast.Mod):
            return self.mod(a, b)
        if isinstance(a, SB):
            a = SV(self.term(a))
        if isinstance(b, SB):
            b = SV(self.term(b))
        if isinstance(op, ast.Add):
            return self.add(a, b)
        if isinstance(op, (ast.Sub, ast.Mult)):
            if isinstance(a, (SV, int, float)) and isinstance(b, (SV, int, float)):
                ta, tb = self.term(a), self.term(b)
                if self.c.branch(And(is_kind(ta, 'Int_', 'Bool_'), is_kind(tb, 'Int_', 'Bool_'))):
                    x, y = intval(ta), intval(tb)
                    return mkint(x - y) if isinstance(op, ast.Sub) else mkint(x * y)
                if self.c.branch(And(is_num(ta), is_num(tb))):
                    x, y = num(ta), num(tb)
                    return SV(Val.Flt_(x - y if isinstance(op, ast.Sub) else x * y))
                if isinstance(op, ast.Sub):
                    self.throw(TypeError, 'unsupported operand type(s) for -')
            if isinstance(op, ast.Sub):
                h = self.ext_binop('-', a, b)
                if h is not UNDEF:
                    return h
                if isinstance(a, (HObj, HDict, str)) or isinstance(b, (HObj, HDict, str)) or a is None or b is None:
                    self.throw(TypeError, 'unsupported operand type(s) for -')
            self.unsup('binary op on %r %r' % (a, b))
        if isinstance(op, ast.BitOr):
            if isinstance(a, (HDict, dict)) and isinstance(b, (HDict, dict)):
                d = HDict()
                self.dupdate(d, a)
                self.dupdate(d, b)
                return d
            if isinstance(a, (HList, set, frozenset)):
                return HList(self.iterate(a) + self.iterate(b), 'set')
        if isinstance(op, (ast.FloorDiv, ast.Div)):
            self.unsup('division')
        self.unsup('binary op %s' % type(op).__name__)

    def ext_binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Ext):
                h = self.extm.get((x.kind, op))
                if h:
                    return h(self, a, b)
        return UNDEF

    def plain(self, a):
        if isinstance(a, tuple):
            return all(self.plain(x) for x in a)
        return isinstance(a, SCALARS)

    def native_binop(self, op, a, b):
        import operator as O
        f = {ast.Add: O.add, ast.Sub: O.sub, ast.Mult: O.mul, ast.Div: O.truediv,
             ast.FloorDiv: O.floordiv, ast.Mod: O.mod, ast.Pow: O.pow, ast.BitOr: O.or_,
             ast.BitAnd: O.and_, ast.BitXor: O.xor, ast.LShift: O.lshift,
             ast.RShift: O.rshift}[type(op)]
        try:
            return f(a, b)
        except Exception as e:
            self.throw(type(e), *e.args)

    def add(self, a, b):
        if isinstance(a, (HList, list)) or isinstance(b, (HList, list)):
            if isinstance(a, (HList, list)) and isinstance(b, (HList, list)):
                return HList(self.iterate(a) + self.iterate(b))
            if isinstance(a, SV) or isinstance(b, SV):
                a, b = self.view(a), self.view(b)
                if isinstance(a, (HList, list)) and isinstance(b, (HList, list)):
                    return self.add(a, b)
            self.throw(TypeError, 'can only concatenate list')
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        h = self.ext_binop('+', a, b)
        if h is not UNDEF:
            return h
        if isinstance(a, (SV, int, float, str, bytes)) and isinstance(b, (SV, int, float, str, bytes)):
            ta, tb = self.term(a), self.term(b)
            if self.c.branch(And(is_kind(ta, 'Int_', 'Bool_'), is_kind(tb, 'Int_', 'Bool_'))):
                return mkint(intval(ta) + intval(tb))
            if self.c.branch(And(is_kind(ta, 'Str_'), is_kind(tb, 'Str_'))):
                return mkstr(z3.Concat(acc('Str_', ta), acc('Str_', tb)))
            if self.c.branch(And(is_num(ta), is_num(tb))):
                return SV(Val.Flt_(num(ta) + num(tb)))
            if self.c.branch(And(is_kind(ta, 'Byt_'), is_kind(tb, 'Byt_'))):
                return SV(Val.Byt_(z3.Concat(acc('Byt_', ta), acc('Byt_', tb))))
            if self.c.branch(And(is_kind(ta, 'List_'), is_kind(tb, 'List_'))):
                return self.add(self.view(SV(ta)), self.view(SV(tb)))
            self.throw(TypeError, 'unsupported operand type(s) for +')
        self.throw(TypeError, 'unsupported operand type(s) for +')

    def mod(self, a, b):
        if isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            import re
            specs = re.findall(r'%(?!%)[#0\- +]*\d*(?:\.\d+)?([a-zA-Z])', a)
            if len(specs) != len(args) and not (isinstance(b, (HDict, dict)) or '%(' in a):
                self.throw(TypeError, 'not all arguments converted during string formatting')
            if all(s in 'sr' for s in specs) and '%%' not in a:
                bits = re.split(r'%[sr]', a)
                if len(bits) == len(args) + 1:
                    parts = [bits[0]]
                    for s, x, t in zip(specs, args, bits[1:]):
                        parts.append(self.str_(x) if s == 's' else self.repr_(x))
                        parts.append(t)
                    return self.concat([p for p in parts if not (isinstance(p, str) and p == '')] or [''])
            if self.plain(tuple(args)):
                try:
                    return a % (b if isinstance(b, tuple) else (b,))
                except Exception as e:
                    self.throw(type(e), *e.args)
            for s, x in zip(specs, args):
                if s in 'dif' and isinstance(x, SV):
                    if not self.c.branch(is_num(x.t)):
                        self.throw(TypeError, '%d format: a real number is required')
                elif s == 's':
                    self.str_(x)
            return SV(Val.Str_(self.c.fresh('fmt', S)))
        if isinstance(a, (int, SV)) and isinstance(b, int) and b > 0 and not isinstance(a, str):
            ta = self.term(a)
            if self.c.branch(is_kind(ta, 'Int_', 'Bool_')):
                return mkint(intval(ta) % b)
        if isinstance(a, SV) and self.c.branch(is_kind(a.t, 'Str_')):
            return SV(Val.Str_(self.c.fresh('fmt', S)))
        self.unsup('% operator')

    STR = z3.Function('py_str', Val, S)
    REPR = z3.Function('py_repr', Val, S)

    def str_(self, v):
        if isinstance(v, str):
            return str(v) if type(v) is str else str.__str__(v)
        if isinstance(v, (type(None), bool, int, float, bytes)):
            return str(v)
        if isinstance(v, SB):
            return self.val(Ite(v.b, VStr('True'), VStr('False')))
        if isinstance(v, SV):
            c = con_of(v.t)
            if c == 'Str_':
                return v
            if c is None and self.c.branch(is_kind(v.t, 'Str_')):
                return SV(Val.Str_(acc('Str_', v.t)))
            if c in (None, 'Int_'):
                if self.c.branch(And(is_kind(v.t, 'Int_'), z3.BoolVal(True))):
                    i = acc('Int_', v.t)
                    return SV(Val.Str_(z3.If(i >= 0, z3.IntToStr(i),
                                             z3.Concat(z3.StringVal('-'), z3.IntToStr(-i)))))
            if c is None:
                self.c.assume(Imp(is_kind(v.t, 'None_'), self.STR(v.t) == z3.StringVal('None')))
            return SV(Val.Str_(self.STR(v.t)))
        if isinstance(v, HObj):
            f = self.class_attr(v.cls, '__str__')
            if f is not UNDEF and isinstance(f, types.FunctionType):
                if f.__module__.startswith('oidcmsg') or self.inline_ok(f):
                    return self.call(BoundMethod(f, v), [], {})
            if isinstance(v.cls, type) and issubclass(v.cls, BaseException):
                a = v.attrs.get('args', ())
                if len(a) == 1:
                    return self.str_(a[0])
            return SV(Val.Str_(self.c.fresh('str', S)))
        if isinstance(v, type):
            return str(v)
        if isinstance(v, Ext):
            h = self.extm.get((v.kind, '__str__'))
            if h:
                return h(self, v)
        if isinstance(v, Poison):
            self.unsup('value lost')
        return SV(Val.Str_(self.c.fresh('str', S)))

    def repr_(self, v):
        if self.plain(v):
            return repr(v)
        if isinstance(v, SV):
            return SV(Val.Str_(self.REPR(v.t)))
        return SV(Val.Str_(self.c.fresh('repr', S)))

    # ------------------------------------------------------------------ comparison
    def compare(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            self.unsup('value lost')
        if isinstance(op, ast.Is):
            return mkbool(self.is_(a, b))
        if isinstance(op, ast.IsNot):
            return mkbool(Not(self.is_(a, b)))
        if isinstance(op, ast.Eq):
            return mkbool(self.eq(a, b))
        if isinstance(op, ast.NotEq):
            return mkbool(Not(self.eq(a, b)))
        if isinstance(op, ast.In):
            return mkbool(self.contains(b, a))
        if isinstance(op, ast.NotIn):
            return mkbool(Not(self.contains(b, a)))
        return mkbool(self.order(op, a, b))

    def is_(self, a, b):
        if isinstance(a, SB) and isinstance(b, SB):
            return Iff(a.b, b.b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (SV, SB)):
                t = self.term(x)
                if y is None:
                    return is_kind(t, 'None_')
                if isinstance(y, bool):
                    return And(is_kind(t, 'Bool_'), Eq(t, VBool(y)) if True else None)
                if isinstance(y, (SV, SB)):
                    ty = self.term(y)
                    return Eq(t, ty)
                if isinstance(y, type):
                    return False
                if isinstance(y, (str, int)):
                    return Eq(t, self.term(y))
                return False
        if isinstance(a, (bool, type(None), str, int)) and isinstance(b, (bool, type(None), str, int)):
            return a is b or (type(a) is type(b) and a == b)
        return a is b

    def eq(self, a, b):
        """formula for Python ==  (may fork when user code runs)"""
        if a is b and not isinstance(a, (float, SV)):
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, HObj) and not isinstance(y, (SB, SV, bool, int, str)) or \
                    isinstance(x, HObj) and x is a:
                f = self.class_attr(x.cls, '__eq__')
                if isinstance(f, types.FunctionType):
                    r = self.call(BoundMethod(f, x), [y], {})
                    if r is not NotImplemented:
                        return self.truth(r)
        if isinstance(a, (SV, SB)) and isinstance(b, HObj):
            x, y = b, a
            f = self.class_attr(x.cls, '__eq__')
            if isinstance(f, types.FunctionType) and not self.c.branch(is_kind(self.term(a), 'Msg_')):
                return False
            if isinstance(f, types.FunctionType):
                return self.truth(self.call(BoundMethod(f, x), [self.view(a)], {}))
        if self.termable(a) and self.termable(b):
            if self.plain(a) and self.plain(b):
                return a == b
            return py_eq(self.term(a), self.term(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.eq(x, y) for x, y in zip(a, b)])
        ca, cb = self.coll(a), self.coll(b)
        if isinstance(a, SV) and cb:
            return self.eq_sv(a, b)
        if isinstance(b, SV) and ca:
            return self.eq_sv(b, a)
        if ca and cb:
            if ca != cb:
                return False
            if ca == 'dict':
                return self.eq_dict(self.asdict(a), self.asdict(b))
            return self.eq_list(a, b)
        if ca or cb:
            return False
        if isinstance(a, Ext) or isinstance(b, Ext):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ext):
                    h = self.extm.get((x.kind, '=='))
                    if h:
                        return h(self, x, y)
            return a is b
        if isinstance(a, (HObj, BoundMethod, HFunc)) or isinstance(b, (HObj, BoundMethod, HFunc)):
            return a is b
        if isinstance(a, DictView) or isinstance(b, DictView):
            self.unsup('dict view comparison')
        if self.termable(a) and not self.plain(a) or self.termable(b) and not self.plain(b):
            return False
        try:
            return bool(a == b)
        except Exception as e:
            self.unsup('native eq: %r' % e)

    def coll(self, v):
        if isinstance(v, (HDict, dict)):
            return 'dict'
        if isinstance(v, HList):
            return v.kind
        if isinstance(v, list):
            return 'list'
        if isinstance(v, (set, frozenset)):
            return 'set'
        return None

    def eq_sv(self, sv, c):
        k = self.coll(c)
        t = sv.t
        if k == 'dict':
            d = self.asdict(c)
            if not self.finite(d):
                return And(is_kind(t, 'Dict_'), self.eq_dict(HDict(base=acc('Dict_', t)), d))
            return And(is_kind(t, 'Dict_'), self.eq_dict(HDict(base=acc('Dict_', t)), d))
        if k == 'list':
            items = self.iterate(c)
            if any(isinstance(i, Seq) or i[0] is not True for i in items):
                return And(is_kind(t, 'List_'), EQL(t, self.term(c)))
            l = acc('List_', t)
            return And(is_kind(t, 'List_'), llen(l) == len(items),
                       *[self.eq(SV(lnth(l, z3.IntVal(i))), x) for i, (_, x) in enumerate(items)])
        return False

    def eq_dict(self, a, b):
        if a is b:
            return True
        if a.base is not None and b.base is not None and a.base.eq(b.base) and a.lay == b.lay:
            return True
        fa, fb = self.finite(a), self.finite(b)
        if not fa and not fb:
            # extensional
            kv = self.c.fresh('ek', Val)
            ha, hb = self.dhasf(a, SV(kv)), self.dhasf(b, SV(kv))
            va = self.term(self.merge_vals_nf([(c, v) for c, v in self.dcases(a, SV(kv)) if v is not DEL] or [(True, None)]))
            vb = self.term(self.merge_vals_nf([(c, v) for c, v in self.dcases(b, SV(kv)) if v is not DEL] or [(True, None)]))
            return forall([kv], And(Iff(ha, hb), Imp(ha, py_eq(va, vb))))
        if not fb:
            a, b, fa, fb = b, a, fb, fa
        # b finite
        ks = self.finkeys(b)
        out = []
        n = 0
        for c, k in ks:
            ha = self.dhasf(a, k)
            out.append(Iff(ha, c))
            vb = self.merge_vals([(cc, v) for cc, v in self.dcases(b, k) if v is not DEL])
            ca = [(cc, v) for cc, v in self.dcases(a, k) if v is not DEL]
            if ca:
                va = self.merge_vals(ca)
                out.append(Imp(c, self.eq(va, vb)))
            n = n + (1 if c is True else z3.If(c, 1, 0))
        la = self.dlen(a)
        out.append(la == n if not isinstance(la, int) or not isinstance(n, int) else la == n)
        return And(*out)

    def eq_list(self, a, b):
        ia, ib = self.iterate(a), self.iterate(b)
        if any(isinstance(i, Seq) or i[0] is not True for i in ia + ib):
            if len(ia) == 1 and len(ib) == 1 and isinstance(ia[0], Seq) and isinstance(ib[0], Seq) \
                    and ia[0].src and ib[0].src and ia[0].src[0] == 'list' == ib[0].src[0]:
                return py_eq(Val.List_(ia[0].src[1]), Val.List_(ib[0].src[1]))
            na = self.llen(HList(ia))
            nb = self.llen(HList(ib))
            if not ia or not ib:
                return na == nb
            if len(ia) == 1 and isinstance(ia[0], Seq):
                ia, ib, na, nb = ib, ia, nb, na
            if len(ib) == 1 and isinstance(ib[0], Seq) and not any(isinstance(i, Seq) or i[0] is not True for i in ia):
                s, xs = ib[0], [x for _, x in ia]
                if len(xs) == 1 and s.src and s.src[0] == 'dkeys' and len(s.vars) == 1:
                    # the single key of a mapping
                    w = self.c.fresh('ek', Val)
                    t = self.term(xs[0])
                    return And(nb == 1, subst(s.mem, [(s.vars[0], t)]),
                               forall([w], Imp(subst(s.mem, [(s.vars[0], w)]), Eq(w, t))))
                if s.ordered:
                    return And(nb == len(xs), *[self.eq(s.ordered(z3.IntVal(i)), x) for i, x in enumerate(xs)])
            self.unsup('comparison of symbolic lists')
        if self.coll(a) == 'set':
            if len(ia) != len(ib):
                pass
            return And(*[self.contains(b, x) for _, x in ia], *[self.contains(a, x) for _, x in ib])
        if len(ia) != len(ib):
            return False
        return And(*[self.eq(x, y) for (_, x), (_, y) in zip(ia, ib)])

    def order(self, op, a, b):
        import operator as O
        f = {ast.Lt: O.lt, ast.LtE: O.le, ast.Gt: O.gt, ast.GtE: O.ge}[type(op)]
        if self.plain(a) and self.plain(b):
            try:
                return f(a, b)
            except TypeError as e:
                self.throw(TypeError, *e.args)
        h = self.ext_binop(type(op).__name__, a, b)
        if h is not UNDEF:
            return self.truth(h)
        if self.termable(a) and self.termable(b):
            ta, tb = self.term(a), self.term(b)
            if self.c.branch(And(is_kind(ta, 'Int_'), is_kind(tb, 'Int_'))):
                return _norm(f(acc('Int_', ta), acc('Int_', tb)))
            if self.c.branch(And(is_num(ta), is_num(tb))):
                return _norm(f(num(ta), num(tb)))
            if self.c.branch(And(is_kind(ta, 'Str_'), is_kind(tb, 'Str_'))):
                return _norm(f(acc('Str_', ta), acc('Str_', tb)))
            if self.c.branch(Or(And(is_kind(ta, 'List_'), is_kind(tb, 'List_')),
                                And(is_kind(ta, 'Byt_'), is_kind(tb, 'Byt_')),
                                And(is_kind(ta, 'Obj_'), is_kind(tb, 'Obj_')))):
                self.unsup('ordering of containers')
            self.throw(TypeError, 'ordering not supported between these types')
        if isinstance(a, tuple) and isinstance(b, tuple):
            self.unsup('tuple ordering')
        if isinstance(a, (HList,)) and isinstance(b, (HList,)):
            self.unsup('list ordering')
        if isinstance(a, Ext) or isinstance(b, Ext):
            self.unsup('ordering of external objects')
        self.throw(TypeError, 'ordering not supported between these types')

    def contains(self, c, x):
        """formula of `x in c`"""
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, SV):
                if not self.c.branch(is_kind(x.t, 'Str_')):
                    self.throw(TypeError, "'in <string>' requires string as left operand")
                return z3.Contains(z3.StringVal(c), acc('Str_', x.t))
            self.throw(TypeError, "'in <string>' requires string as left operand")
        if isinstance(c, HDict):
            return self.dhasf(c, self.hashable(x))
        if isinstance(c, dict):
            x = self.hashable(x)
            if self.termable(x) and not self.plain(x):
                return Or(*[self.keyeq(k, x) for k in c])
            try:
                return x in c
            except TypeError as e:
                self.throw(TypeError, *e.args)
        if isinstance(c, DictView):
            if c.what == 'keys':
                return self.dhasf(c.d, self.hashable(x))
            return self.contains_items(self.iterate(c), x)
        if isinstance(c, (tuple, list, set, frozenset, HList)):
            if isinstance(c, (set, frozenset)) or isinstance(c, HList) and c.kind == 'set':
                x = self.hashable(x)
            if isinstance(c, HList) and c.locked:
                self.unsup('list read while it is built in a symbolic loop')
            if not isinstance(c, HList) and self.plain(x) and all(self.plain(y) for y in c):
                return x in c
            return self.contains_items(self.iterate(c), x)
        if isinstance(c, SB) or c is None or isinstance(c, (int, float)):
            self.throw(TypeError, 'argument is not iterable')
        if isinstance(c, SV):
            k = self.kind(c)
            if k == 'Str_':
                s = acc('Str_', c.t)
                tx = self.term(x) if self.termable(x) else None
                if tx is None or not self.c.branch(is_kind(tx, 'Str_')):
                    self.throw(TypeError, "'in <string>' requires string as left operand")
                return z3.Contains(s, acc('Str_', tx))
            if k == 'Byt_':
                if isinstance(x, str) or (isinstance(x, SV) and self.kind(x) == 'Str_'):
                    self.throw(TypeError, 'a bytes-like object is required')
                self.unsup('in bytes')
            if k in ('List_', 'Dict_', 'Msg_'):
                return self.contains(self.view(c, '__contains__'), x)
            if k == 'Obj_':
                w = self.view(c)
                if w is not c and not isinstance(w, SV):
                    return self.contains(w, x)
                self.unsup('in opaque object')
            self.throw(TypeError, 'argument is not iterable')
        if isinstance(c, HObj):
            f = self.class_attr(c.cls, '__contains__')
            if f is not UNDEF:
                return self.truth(self.call(BoundMethod(f, c), [x], {}))
            f = self.class_attr(c.cls, '__iter__')
            if f is not UNDEF:
                return self.contains_items(self.iterate(c), x)
            self.throw(TypeError, 'argument is not iterable')
        if isinstance(c, Ext):
            h = self.extm.get((c.kind, '__contains__'))
            if h:
                return self.truth(h(self, c, x))
        if isinstance(c, HGen):
            return self.contains_items(self.gen_items(c), x)
        if isinstance(c, Seq):
            return self.contains_items([c], x)
        if isinstance(c, range):
            return self.contains_items(self.iterate(c), x)
        if isinstance(c, type) and issubclass(c, enum.Enum):
            return self.contains_items(self.iterate(c), x)
        if isinstance(c, (type({}.keys()), type({}.values()), type({}.items()))):
            return self.contains_items(self.iterate(c), x)
        self.unsup('in on %r' % (c,))

    def contains_items(self, items, x):
        out = []
        for it in items:
            if isinstance(it, Seq):
                if it.src is not None and it.src[0] == 'list' and self.termable(x):
                    out.append(self.lhasf(it.src[1], self.term(x)))
                elif it.distinct and self.termable(x) and len(it.vars) == 1 and it.vars[0].sort() == Val \
                        and isinstance(it.elem, SV) and it.elem.t.eq(it.vars[0]):
                    out.append(subst(it.mem, [(it.vars[0], self.term(x))]))
                elif self.termable(x) and self.termable(it.elem):
                    kv, mem, el = self.generic(it)
                    out.append(exists(kv, And(mem, py_eq(self.term(el), self.term(x)))))
                else:
                    self.unsup('membership in symbolic sequence')
            else:
                out.append(And(it[0], self.eq(it[1], x)))
        return Or(*out)

    def lhasf(self, l, t):
        return lhas(l, t)

    # ------------------------------------------------------------------ indexing
    def getitem(self, o, ix):
        if isinstance(ix, slice):
            return self.getslice(o, ix.start, ix.stop, ix.step)
        if isinstance(o, HDict):
            return self.ditem(o, ix)
        if isinstance(o, dict):
            ix = self.hashable(ix)
            if self.plain(ix) or not self.termable(ix):
                try:
                    return o[ix]
                except KeyError:
                    self.throw(KeyError, ix)
            return self.ditem(self.const2heap(o), ix)
        if isinstance(o, (tuple, list, str, bytes)) and isinstance(ix, int):
            try:
                return o[ix]
            except IndexError:
                self.throw(IndexError, 'index out of range')
        if isinstance(o, SB):
            self.throw(TypeError, 'not subscriptable')
        if isinstance(o, SV):
            k = self.kind(o)
            if k == 'Str_':
                return self.strindex(acc('Str_', o.t), ix)
            if k in ('List_', 'Dict_', 'Msg_'):
                return self.getitem(self.view(o, '__getitem__'), ix)
            if k == 'Obj_':
                w = self.view(o)
                if not isinstance(w, SV):
                    return self.getitem(w, ix)
                self.unsup('subscript of opaque object')
            if k == 'Byt_':
                if isinstance(ix, str) or isinstance(ix, SV) and con_of(ix.t) == 'Str_':
                    self.throw(TypeError, 'byte indices must be integers or slices')
                self.unsup('index of bytes')
            self.throw(TypeError, 'object is not subscriptable')
        if isinstance(o, (list, tuple, HList, str)):
            if isinstance(ix, SB):
                ix = SV(self.term(ix))
            if not isinstance(ix, (int, SV)):
                self.throw(TypeError, 'indices must be integers')
            if isinstance(ix, SV) and not self.c.branch(is_kind(ix.t, 'Int_', 'Bool_')):
                self.throw(TypeError, 'indices must be integers')
            if isinstance(o, str):
                return self.strindex(z3.StringVal(o), ix)
            if isinstance(o, HList) and o.kind == 'set':
                self.throw(TypeError, "'set' object is not subscriptable")
            return self.listindex(self.iterate(o), ix)
        if isinstance(o, HObj):
            f = self.class_attr(o.cls, '__getitem__')
            if f is UNDEF:
                self.throw(TypeError, 'object is not subscriptable')
            return self.call(BoundMethod(f, o), [ix], {})
        if isinstance(o, Ext):
            h = self.extm.get((o.kind, '__getitem__'))
            if h:
                return h(self, o, ix)
        if o is None or isinstance(o, (int, float)):
            self.throw(TypeError, 'object is not subscriptable')
        if isinstance(o, type) and issubclass(o, enum.Enum) and isinstance(ix, str):
            try:
                return o[ix]
            except KeyError:
                self.throw(KeyError, ix)
        self.unsup('subscript of %r' % (o,))

    def strindex(self, z, ix):
        if isinstance(ix, str) or (isinstance(ix, SV) and self.kind(ix) == 'Str_'):
            self.throw(TypeError, 'string indices must be integers')
        i = z3.IntVal(ix) if isinstance(ix, int) else intval(ix.t)
        n = z3.Length(z)
        j = z3.If(i < 0, i + n, i) if not (isinstance(ix, int) and ix >= 0) else i
        if not self.c.branch(z3.And(j >= 0, j < n)):
            self.throw(IndexError, 'string index out of range')
        return SV(Val.Str_(z3.SubString(z, j, 1)))

    def listindex(self, items, ix):
        if len(items) == 1 and isinstance(items[0], Seq):
            s = items[0]
            if s.ordered is None:
                if s.src and s.src[0] == 'dkeys' and False:
                    pass
                self.unsup('index into unordered symbolic sequence')
            n = self.seqlen(s)
            i = z3.IntVal(ix) if isinstance(ix, int) else intval(ix.t)
            j = i + n if isinstance(ix, int) and ix < 0 else i
            if not self.c.branch(z3.And(j >= 0, j < n)):
                self.throw(IndexError, 'list index out of range')
            return s.ordered(j)
        if any(isinstance(i, Seq) for i in items):
            self.unsup('index into mixed sequence')
        vals = []
        for c, x in items:
            if self.c.branch(c):
                vals.append(x)
        if isinstance(ix, SV):
            for j in range(len(vals)):
                if self.c.branch(Or(intval(ix.t) == j, intval(ix.t) == j - len(vals))):
                    return vals[j]
            self.throw(IndexError, 'list index out of range')
        try:
            return vals[ix]
        except IndexError:
            self.throw(IndexError, 'list index out of range')

    def getslice(self, o, lo, hi, st):
        if isinstance(o, (str, tuple, bytes)) and all(isinstance(x, (int, type(None))) for x in (lo, hi, st)):
            return o[lo:hi:st]
        if isinstance(o, SV):
            k = self.kind(o)
            if k == 'Str_':
                z = acc('Str_', o.t)
                return self.strslice(z, lo, hi, st)
            o = self.view(o)
            if isinstance(o, SV) or o is None:
                self.throw(TypeError, 'object is not subscriptable')
        if isinstance(o, str):
            return self.strslice(z3.StringVal(o), lo, hi, st)
        if isinstance(o, (HList, list)):
            items = self.iterate(o)
            if not any(isinstance(i, Seq) for i in items) and all(i[0] is True for i in items) and \
                    all(isinstance(x, (int, type(None))) for x in (lo, hi, st)):
                return HList(items[lo:hi:st])
            if lo in (None, 0) and hi is None and st is None:
                return HList(items)
            if len(items) == 1 and isinstance(items[0], Seq) and items[0].ordered and st in (None, 1) \
                    and all(x is None or is_intlike(self, x) for x in (lo, hi)):
                s = items[0]
                iv = self.c.fresh('ix', I)
                n = self.seqlen(s)

                def clampix(x, dflt):
                    if x is None:
                        return dflt
                    if isinstance(x, int):
                        x = int(x)
                        if x == 0:
                            return z3.IntVal(0)
                        return z3.If(n < x, n, z3.IntVal(x)) if x > 0 else z3.If(n + x < 0, z3.IntVal(0), n + x)
                    t = intval(x.t)
                    t = z3.If(t < 0, z3.If(n + t < 0, z3.IntVal(0), n + t), z3.If(t > n, n, t))
                    return t
                a = clampix(lo, z3.IntVal(0))
                b = clampix(hi, n)
                # quantified over the absolute index: no shifted index terms
                r = Seq([iv], z3.And(iv >= a, iv < b), s.ordered(iv), ordered=lambda i: s.ordered(i + a))
                r.n = z3.If(b > a, b - a, z3.IntVal(0))
                r.src = ('slice',)
                return HList([r])
        self.unsup('slice of %r' % (o,))

    def strslice(self, z, lo, hi, st):
        if st is not None:
            self.unsup('string slice with step')
        n = z3.Length(z)

        def bound(x, d):
            if x is None:
                return d
            if isinstance(x, int):
                if x >= 0:
                    return z3.If(z3.IntVal(x) <= n, z3.IntVal(x), n)
                return z3.If(n + x >= 0, n + x, z3.IntVal(0))
            i = intval(self.term(x))
            i = z3.If(i < 0, z3.If(n + i >= 0, n + i, z3.IntVal(0)), z3.If(i <= n, i, n))
            return i
        a = bound(lo, z3.IntVal(0))
        b = bound(hi, n)
        return mkstr(z3.SubString(z, a, z3.If(b > a, b - a, z3.IntVal(0))))

    def setitem(self, o, ix, v):
        if isinstance(o, HDict):
            return self.dset(o, ix, v)
        if isinstance(o, HList):
            items = o.items
            if isinstance(ix, int) and all(not isinstance(i, Seq) and i[0] is True for i in items):
                try:
                    new = list(items)
                    new[ix] = (True, v)
                except IndexError:
                    self.throw(IndexError, 'list assignment index out of range')
                return self.lreplace(o, new)
            self.unsup('list item assignment')
        if isinstance(o, (dict, list)):
            self.event('write to shared constant container', o)
            return
        if isinstance(o, HObj):
            f = self.class_attr(o.cls, '__setitem__')
            if f is UNDEF:
                self.throw(TypeError, 'object does not support item assignment')
            return self.call(BoundMethod(f, o), [ix, v], {})
        if isinstance(o, SV):
            w = self.view(o)
            if w is not o and not isinstance(w, SV):
                return self.setitem(w, ix, v)
            self.throw(TypeError, 'object does not support item assignment')
        if isinstance(o, Ext):
            h = self.extm.get((o.kind, '__setitem__'))
            if h:
                return h(self, o, ix, v)
        if isinstance(o, (str, int, tuple)) or o is None:
            self.throw(TypeError, 'object does not support item assignment')
        self.unsup('item assignment on %r' % (o,))

    def delitem(self, o, ix):
        if isinstance(o, HDict):
            return self.ddel(o, ix)
        if isinstance(o, (dict, list)):
            self.event('delete from shared constant container', o)
            return
        if isinstance(o, HObj):
            f = self.class_attr(o.cls, '__delitem__')
            if f is UNDEF:
                self.throw(TypeError, 'object does not support item deletion')
            return self.call(BoundMethod(f, o), [ix], {})
        if isinstance(o, SV):
            w = self.view(o)
            if w is not o:
                return self.delitem(w, ix)
        if isinstance(o, Ext):
            h = self.extm.get((o.kind, '__delitem__'))
            if h:
                return h(self, o, ix)
        if isinstance(o, HList) and isinstance(ix, int):
            items = list(o.items)
            if all(not isinstance(i, Seq) and i[0] is True for i in items):
                del items[ix]
                return self.lreplace(o, items)
        self.unsup('del item on %r' % (o,))


class HGen(Logged):
    """generator expression, evaluated when consumed"""

    def __init__(self, node, env, first):
        self.node = node
        self.env = env
        self.first = first
