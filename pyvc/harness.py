"""Harness API.  One harness text is executed in two ways: symbolically (SymH: every
path of the real functions it calls, obligations sent to the solver) and natively
(NatH: the same text against the imported real code, on concrete inputs)."""
import sys
import z3

from .vals import *
from .vals import _norm
from .ctx import *
from .ctx import lstr
from .heap import *
from .interp import SIGNALS, Raise, UNDEF, Signal
from . import heap as _heap


class Skip(BaseException):
    """native: the drawn inputs do not satisfy the precondition"""


class Res:
    def __init__(self, ok, val=None, exc=None, excobj=None):
        self.ok = ok
        self.val = val
        self.exc = exc
        self.excobj = excobj

    def raised(self, *cls):
        return (not self.ok) and issubclass(self.exc, cls)

    def __repr__(self):
        return 'ok' if self.ok else 'raise %s' % self.exc.__name__


def K(*names):
    m = {'none': 'None_', 'bool': 'Bool_', 'int': 'Int_', 'float': 'Flt_', 'str': 'Str_', 'bytes': 'Byt_',
         'list': 'List_', 'dict': 'Dict_', 'msg': 'Msg_', 'obj': 'Obj_'}
    return [m[n] for n in names]


ALLK = ('none', 'bool', 'int', 'float', 'str', 'list', 'dict', 'msg')


class SymH:
    sym = True

    def __init__(self, interp, ob):
        self.I = interp
        self.c = interp.c
        self.ob = ob
        self.inputs = []
        self.results = []       # VC results of this path
        self.labels = []
        self.notes = []
        self.calls = []
        self.strfacts = []

    # ------------------------------------------------------------- inputs
    def val(self, name, *kinds, hint=None):
        v = self.c.fval(name)
        if kinds:
            self.c.assume(is_kind(v, *K(*kinds)))
            if len(kinds) == 1 and kinds[0] not in ('none',):
                k = K(kinds[0])[0]
                x = self.c.fresh(name, ACC[k].range())
                t = CON[k](x)
                self.inputs.append((name, 'val', t))
                return SV(t) if kinds[0] != 'bool' else SB(x)
        else:
            self.c.assume(z3.Not(Val.is_Obj_(v)))
        self.inputs.append((name, 'val', v))
        return SV(v)

    def str(self, name, hint=None):
        return self.val(name, 'str')

    def int(self, name, hint=None):
        return self.val(name, 'int')

    def bool(self, name):
        return self.val(name, 'bool')

    def strlist(self, name, hint=None):
        v = self.val(name, 'list')
        self.c.assume(lstr(v.t.arg(0)))
        return v

    def dict(self, name, strkeys=True, hint=None):
        """arbitrary mapping the caller owns"""
        d = self.c.fresh(name, I)
        hd = HDict(base=d, frozen=True)
        if strkeys:
            self.strkeys(d)
        self.inputs.append((name, 'dict', d))
        return hd

    def owndict(self, name, strkeys=True, hint=None):
        d = self.dict(name, strkeys)
        d.frozen = False
        return d

    def strkeys(self, d):
        k = self.c.fresh('k', Val)
        self.c.strk[d.get_id()] = d
        self.c.assume(z3.ForAll([k], z3.Implies(dhas(d, k), Val.is_Str_(k))))

    def kwargs(self, name, opt=None, req=None, others=False, exclude=()):
        """keyword arguments: `opt` may be absent, `req` are present, `others`: any further
        keywords (none of those named)"""
        lay = []
        pay = {}
        base = None
        if others:
            base = self.c.fresh(name + '_others', I)
            self.strkeys(base)
            for k in list(opt or ()) + list(req or ()) + list(exclude) + ['self']:
                self.c.assume(z3.Not(dhas(base, VStr(k))))
        for k, v in (opt or {}).items():
            p = self.c.fresh('has_%s' % k, B)
            pay[k] = (p, v)
            lay.append(Ent(p, k, v))
        for k, v in (req or {}).items():
            pay[k] = (True, v)
            lay.append(Ent(True, k, v))
        self.inputs.append((name, 'kw', (pay, base)))
        return HDict(base, lay)

    def message(self, name, cls, welltyped=True, defaults=False, attrs=None, hints=None):
        d = self.c.fresh(name, I)
        hd = HDict(base=d)
        self.strkeys(d)
        m = self.newmessage(cls, attrs)
        m.tag = name
        m.attrs['_dict'] = hd
        a = m.attrs
        if welltyped:
            welltyped_facts(self, d, cls)
            hd.welltyped = cls
        self.inputs.append((name, 'msg', (cls, d, {k: a[k] for k in (attrs or {})})))
        return m

    def newmessage(self, cls, attrs=None):
        """an empty instance"""
        m = self.I.instantiate(cls, [], HDict(None, [Ent(True, 'set_defaults', False)]))
        m.attrs.update(attrs or {})
        return m

    def obj(self, cls, attrs):
        """instance of a repository class with the given attributes"""
        return HObj(cls, dict(attrs))

    def mkdict(self, items):
        return HDict(None, [Ent(True, k, v) for k, v in items.items()])

    def mklist(self, items):
        return HList([(True, v) for v in items])

    def ext(self, name, e, concretize):
        self.inputs.append((name, 'ext', (e, concretize)))
        return e

    def now(self):
        """the current time in whole seconds"""
        from . import models
        return z3.ToReal(z3.ToInt(models.clock(self.I)))

    def strp(self, fmt, v):
        """the text matches the time format"""
        from . import models
        return self.g(lambda x: models.STRP(z3.StringVal(fmt), self.strof(x)), v)

    def urlok(self, v):
        from . import models
        return self.g(lambda x: models.URLOK(self.strof(x)), v)

    def url(self, v, part):
        from . import models
        return self.g1(lambda x: SV(Val.Str_(models.URLP[part](self.strof(x)))), v)

    def g1(self, f, v):
        """lift a value function over a guarded union"""
        if isinstance(v, GV):
            return GV([(c, self.g1(f, x)) for c, x in v.cases])
        return f(v)

    def pick(self, name, options):
        """finite case split"""
        i = self.c.choose(len(options))
        self.inputs.append((name, 'const', i))
        self.notes.append('%s=%r' % (name, options[i]))
        return options[i]

    # ------------------------------------------------------------- execution
    def call(self, f, *args, **kw):
        kwd = kw.pop('kw_', None)
        name = None
        if isinstance(f, tuple):
            name = f[1]
            f = self.I.getattr_(f[0], f[1])
        k = HDict(kwd.base, list(kwd.lay)) if kwd is not None else HDict()
        if kw:
            k = HDict(k.base, k.lay + [Ent(True, a, b) for a, b in kw.items()])
        try:
            v = self.I.run_merged(lambda: self.I.call(f, list(args), k))
            r = Res(True, v)
        except Raise as e:
            r = Res(False, None, e.exc.cls, e.exc)
        self.calls.append(repr(r))
        return r

    def fork(self, f):
        """case split of the harness"""
        return self.c.branch(_norm(f))

    def run(self, fn):
        """run a callable written against interpreter values, as one call"""
        try:
            r = Res(True, self.I.run_merged(fn))
        except Raise as e:
            r = Res(False, None, e.exc.cls, e.exc)
        self.calls.append(repr(r))
        return r

    def expr(self, fn):
        return fn()

    def events(self):
        return [w for w, _ in self.I.events]

    # ------------------------------------------------------------- verdicts
    def assume(self, f):
        self.c.assume(f)
        if not self.c.feasible():
            raise PathEnd()

    def check(self, label, f):
        f = _norm(f)
        self.ob.check(self, label, f)

    def cover(self, label):
        self.labels.append(label)

    # ------------------------------------------------------------- spec operations (total, no forks)
    def snap(self, m):
        if isinstance(m, HDict):
            return self.I.dsnap(m)
        o = HObj(m.cls, dict(m.attrs))
        if isinstance(m.attrs.get('_dict'), HDict):
            o.attrs['_dict'] = self.I.dsnap(m.attrs['_dict'])
        return o

    def D(self, m):
        """heap dict of a mapping value"""
        if isinstance(m, HObj) and '_dict' in m.attrs:
            return m.attrs['_dict']
        if isinstance(m, dict):
            return self.I.const2heap(m)
        if isinstance(m, SV):
            c = con_of(m.t)
            if c == 'Dict_':
                w = self.I.val(m.t)
                if not isinstance(w, SV):
                    return self.D(w)
            if c == 'Msg_':
                w = self.I.val(m.t)
                if not isinstance(w, SV):
                    return self.D(w)
            return HDict(base=z3.If(zb(is_kind(m.t, 'Msg_')), mdict(acc('Msg_', m.t)), acc('Dict_', m.t))
                         if c is None else (acc('Dict_', m.t) if c == 'Dict_' else mdict(acc('Msg_', m.t))))
        return m

    def g(self, f, v):
        """lift a formula over a guarded union"""
        if isinstance(v, GV):
            r = self.g(f, v.cases[-1][1])
            for c, x in reversed(v.cases[:-1]):
                r = BIte(c, self.g(f, x), r)
            return r
        return f(v)

    def g2(self, f, a, b):
        return self.g(lambda x: self.g(lambda y: f(x, y), b), a)

    def two(self, m):
        """a value whose kind is not known: its content as a message / as a dict"""
        if isinstance(m, SV) and con_of(m.t) is None:
            return zb(is_kind(m.t, 'Msg_')), HDict(base=mdict(acc('Msg_', m.t))), HDict(base=acc('Dict_', m.t))
        return None

    def has(self, m, key):
        w = self.two(m)
        if w:
            return Or(And(w[0], self.I.dhasf(w[1], key)), And(is_kind(m.t, 'Dict_'), self.I.dhasf(w[2], key)))
        return self.g(lambda mm: False if mm is None else self.I.dhasf(self.D(mm), key), m)

    def get(self, m, key):
        if isinstance(m, GV):
            return GV([(c, self.get(x, key)) for c, x in m.cases])
        w = self.two(m)
        if w:
            return SV(z3.If(w[0], self.I.term(self.get(w[1], key)), self.I.term(self.get(w[2], key))))
        cs = [(c, v) for c, v in self.I.dcases(self.D(m), key) if v is not DEL]
        if not cs:
            return None
        if len(cs) == 1:
            return cs[0][1]
        if all(self.I.termable(v) for _, v in cs):
            return self.I.merge_vals_nf(cs)
        return GV(cs)

    def attr(self, o, name):
        return o.attrs.get(name)

    def objs(self, v):
        """[(condition, object)]: the message objects a value may be; None for anything else"""
        if isinstance(v, GV):
            out, done = [], False
            for c, x in v.cases:
                out.extend((And(Not(done), c, c2), x2) for c2, x2 in self.objs(x))
                done = Or(done, c)
            return out
        return [(True, v if isinstance(v, HObj) else None)]

    def isk(self, v, *names):
        ks = K(*names)

        def f(x):
            return is_kind(self.I.term(x), *ks)
        return self.g(f, v)

    def isnum(self, v):
        return self.isk(v, 'int', 'bool', 'float')

    def isnone(self, v):
        return self.isk(v, 'none')

    def isinst(self, v, cls):
        def f(x):
            if isinstance(x, HObj):
                return issubclass(x.cls, cls)
            if isinstance(x, SV) and con_of(x.t) in (None, 'Msg_'):
                m = x.t
                codes = [k for k, c in self.I.class_codes.items() if issubclass(c, cls)]
                return And(is_kind(m, 'Msg_'), Or(*[mcls(acc('Msg_', m)) == k for k in codes]))
            return False
        return self.g(f, v)

    def truthy(self, v):
        def f(x):
            if isinstance(x, HDict):
                n = self.I.dlen(x)
                return n > 0
            if isinstance(x, HObj) and '_dict' in x.attrs:
                return f(x.attrs['_dict'])
            return self.I.truth(x)
        return self.g(f, v)

    def eq(self, a, b):
        if isinstance(a, z3.ArithRef) or isinstance(b, z3.ArithRef):
            return a == b
        def f(x, y):
            if x is y:
                return True
            if z3.is_expr(x) or z3.is_expr(y):
                raise Unsupported('formula used as a value')
            if self.I.termable(x) and self.I.termable(y):
                return py_eq(self.I.term(x), self.I.term(y))
            return self.same(x, y)
        return self.g2(f, a, b)

    def is_true(self, v):
        """v is the bool True"""
        return self.g(lambda x: Eq(self.I.term(x), VBool(True)) if self.I.termable(x) else False, v)

    def is_false(self, v):
        return self.g(lambda x: Eq(self.I.term(x), VBool(False)) if self.I.termable(x) else False, v)

    def ident(self, a, b):
        """the same value, type included"""
        def f(x, y):
            if x is y:
                return True
            if self.I.termable(x) and self.I.termable(y):
                return Eq(self.I.term(x), self.I.term(y))
            return self.same(x, y)
        return self.g2(f, a, b)

    def same(self, x, y, depth=0):
        """structural identity of two values, containers pointwise"""
        I_ = self.I
        if isinstance(x, GV) or isinstance(y, GV):
            return self.g2(lambda p, q: self.same(p, q, depth), x, y)
        if x is y:
            return True
        if depth > 4:
            return False
        if I_.termable(x) and I_.termable(y):
            return Eq(I_.term(x), I_.term(y))
        if isinstance(x, SV) and not isinstance(y, SV):
            x, y = y, x
        if isinstance(x, tuple) and isinstance(y, tuple):
            return And(len(x) == len(y), *[self.same(p, q, depth + 1) for p, q in zip(x, y)])
        if isinstance(x, (list, set, frozenset, dict)):
            x = I_.const2heap(x)
        if isinstance(y, (list, set, frozenset, dict)):
            y = I_.const2heap(y)
        if isinstance(x, HDict):
            if isinstance(y, SV):
                t = y.t
                return And(is_kind(t, 'Dict_'), self.samedict(x, HDict(base=acc('Dict_', t)), depth))
            if isinstance(y, HDict):
                return self.samedict(x, y, depth)
            return False
        if isinstance(x, HList):
            if isinstance(y, SV):
                t = y.t
                l = acc('List_', t)
                return And(is_kind(t, 'List_'), self.samelist(x, HList([I_.listseq(l)]), depth))
            if isinstance(y, HList):
                return self.samelist(x, y, depth)
            return False
        if isinstance(x, HObj) and I_.is_message(x):
            if isinstance(y, HObj):
                return And(x.cls is y.cls, self.same(x.attrs['_dict'], y.attrs['_dict'], depth + 1))
            if isinstance(y, SV):
                codes = [k for k, c in I_.class_codes.items() if c is x.cls]
                t = y.t
                m = acc('Msg_', t)
                return And(is_kind(t, 'Msg_'), Or(*[mcls(m) == k for k in codes]),
                           self.samedict(x.attrs['_dict'], HDict(base=mdict(m)), depth))
        return False

    def samedict(self, a, b, depth=0):
        I_ = self.I
        if isinstance(a, HDict) and isinstance(b, HDict) and not a.lay and not b.lay \
                and a.base is not None and b.base is not None and a.base.eq(b.base):
            return True
        if isinstance(a, HDict) and isinstance(b, HDict) and I_.finite(a) and I_.finite(b):
            out = []
            for k in [e.key for e in a.lay] + [e.key for e in b.lay]:
                out.append(Iff(I_.dhasf(a, k), I_.dhasf(b, k)))
                out.append(Imp(And(I_.dhasf(a, k), I_.dhasf(b, k)), self.same(self.get(a, k), self.get(b, k), depth + 1)))
            return And(*out)
        return self.forall_keys2(a, b, lambda k, ha, hb: And(
            Iff(ha, hb), Imp(And(ha, hb), self.same(self.get(a, k), self.get(b, k), depth + 1))))

    def forall_keys2(self, a, b, f):
        k = self.c.fresh('fk', Val)
        kv = SV(k)
        ha, hb = self.has(a, kv), self.has(b, kv)
        return forall([k], f(kv, ha, hb))

    def samelist(self, a, b, depth=0):
        I_ = self.I
        ia, ib = a.items, b.items
        if len(ia) == 1 and len(ib) == 1 and isinstance(ia[0], Seq) and isinstance(ib[0], Seq):
            s, t = ia[0], ib[0]
            if s.src and t.src and s.src[0] == 'list' and t.src[0] == 'list':
                return s.src[1] == t.src[1] if not s.src[1].eq(t.src[1]) else True
        la, lb = I_.llen(a), I_.llen(b)
        oa, ob = self.orderedf(a), self.orderedf(b)
        if oa is None or ob is None:
            raise Unsupported('comparison of unordered symbolic lists')
        if isinstance(la, int) and isinstance(lb, int):
            if la != lb:
                return False
        n = la if isinstance(la, int) else lb
        eqn = (la == lb)
        if isinstance(n, int):
            return And(eqn, *[self.same(oa(z3.IntVal(i)), ob(z3.IntVal(i)), depth + 1) for i in range(n)])
        i = self.c.fresh('ix', I)
        return And(eqn, forall([i], Imp(And(i >= 0, i < n), self.same(oa(i), ob(i), depth + 1))))

    def orderedf(self, l):
        items = l.items
        if len(items) == 1 and isinstance(items[0], Seq):
            return items[0].ordered
        if all(not isinstance(x, Seq) and x[0] is True for x in items):
            vals = [x[1] for x in items]

            def f(i):
                if z3.is_int_value(i):
                    j = i.as_long()
                    return vals[j] if 0 <= j < len(vals) else None
                if not vals:
                    return None
                return GV([(i == j, v) for j, v in enumerate(vals)])
            return f
        return None

    def strof(self, v):
        """z3 string of a str value"""
        return acc('Str_', self.I.term(v))

    def numv(self, v):
        return num(self.I.term(v))

    def lt(self, a, b):
        return self.g2(lambda x, y: self._num(x) < self._num(y), a, b)

    def le(self, a, b):
        return self.g2(lambda x, y: self._num(x) <= self._num(y), a, b)

    def _num(self, x):
        if isinstance(x, z3.ArithRef):
            return x
        if isinstance(x, GV):
            r = self._num(x.cases[-1][1])
            for c, y in reversed(x.cases[:-1]):
                r = self._num(y) if c is True else z3.If(zb(c), self._num(y), r)
            return r
        return num(self.I.term(x))

    def plus(self, *xs):
        r = self._num(xs[0])
        for x in xs[1:]:
            r = r + self._num(x)
        return r

    def minus(self, a, b):
        return self._num(a) - self._num(b)

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        return GV([(c, a), (True, b)])

    def getdef(self, m, key, dflt):
        return self.ite(self.has(m, key), self.get(m, key), dflt)

    def len(self, v):
        """length of list / dict / str values (0 otherwise), as a number term"""
        def f(x):
            if isinstance(x, HList):
                return self.I.llen(x)
            if isinstance(x, HDict):
                return self.I.dlen(x)
            if isinstance(x, HObj):
                return self.I.dlen(x.attrs['_dict'])
            if isinstance(x, (str, list, tuple, dict, set)):
                return len(x)
            if isinstance(x, SV):
                t = x.t
                return z3.If(zb(is_kind(t, 'Str_')), z3.Length(acc('Str_', t)),
                             z3.If(zb(is_kind(t, 'List_')), llen(acc('List_', t)),
                                   z3.If(zb(is_kind(t, 'Dict_')), dlen(acc('Dict_', t)),
                                         z3.If(zb(is_kind(t, 'Msg_')), dlen(mdict(Val.m(t))), z3.IntVal(0)))))
            return 0
        if isinstance(v, GV):
            r = self.len(v.cases[-1][1])
            for c, x in reversed(v.cases[:-1]):
                r = z3.If(zb(c), self.len(x), r) if c is not True else self.len(x)
            return r
        return f(v)

    def iseq(self, a, n):
        return a == n

    def count(self, v):
        n = self.len(v)
        return n if isinstance(n, int) else SV(Val.Int_(n))

    def independent(self, a, b):
        """two messages that share nothing that can be changed"""
        return a is not b and isinstance(b, HObj) and a.attrs['_dict'] is not b.attrs['_dict'] and (
            getattr(b.attrs['_dict'], 'deep', False) or self.I.empty_dict(b.attrs['_dict']))

    def mem(self, x, coll):
        """list / set / tuple membership (python ==)"""
        def f(xx, cc):
            t = self.I.term(xx)
            if isinstance(cc, (list, tuple, set, frozenset)):
                return Or(*[py_eq(t, self.I.term(e)) for e in cc])
            if isinstance(cc, HList):
                out = []
                for it in cc.items:
                    if isinstance(it, Seq):
                        if it.src is not None and it.src[0] == 'list':
                            out.append(lhas(it.src[1], t))
                        else:
                            out.append(exists(it.vars, And(it.mem, self.eq(it.elem, xx))))
                    else:
                        out.append(And(it[0], self.eq(it[1], xx)))
                return Or(*out)
            if isinstance(cc, SV):
                return And(is_kind(cc.t, 'List_'), lhas(acc('List_', cc.t), t))
            return False
        return self.g2(f, x, coll)

    def forall_elems(self, coll, f):
        def q(cc):
            if isinstance(cc, (list, tuple, set, frozenset)):
                return And(*[f(e) for e in cc])
            if isinstance(cc, HList):
                out = []
                for it in cc.items:
                    if isinstance(it, Seq):
                        nv = [self.c.fresh('e', v.sort()) for v in it.vars]
                        sub = list(zip(it.vars, nv))
                        out.append(forall(nv, Imp(subst(it.mem, sub), f(self.I.subst_val(it.elem, sub)))))
                    else:
                        out.append(Imp(it[0], f(it[1])))
                return And(*out)
            if isinstance(cc, SV):
                l = acc('List_', cc.t)
                i = self.c.fresh('i', I)
                return Imp(is_kind(cc.t, 'List_'),
                           forall([i], Imp(And(i >= 0, i < llen(l)), f(SV(lnth(l, i))))))
            return True
        return self.g(q, coll)

    def exists_elems(self, coll, f):
        return And(Not(self.forall_elems(coll, lambda e: Not(f(e)))),
                   self.g(lambda x: isinstance(x, (list, tuple, set, HList)) or is_kind(self.I.term(x), 'List_'), coll))

    def forall_keys(self, d, f):
        k = self.c.fresh('fk', Val)
        kv = SV(k)
        return forall([k], Imp(self.has(d, kv), f(kv)))

    def forall_anykey(self, f):
        """over every str key, present or not"""
        k = self.c.fresh('fk', Val)
        return forall([k], Imp(Val.is_Str_(k), f(SV(k))))

    def without(self, m, keys):
        """the mapping as seen at any other key: writes to these keys do not matter"""
        d = self.D(m)
        if not isinstance(d, HDict) or not keys:
            return m
        same = lambda e: isinstance(e, Ent) and any(
            e.key is x or (type(e.key) is str and e.key == x) or
            (isinstance(e.key, SV) and isinstance(x, SV) and z3.eq(e.key.t, x.t)) for x in keys)
        return HDict(d.base, [e for e in d.lay if not same(e)])

    def unchanged(self, pre, post, *keys):
        """every key but the given ones has the same presence and value"""
        k = self.c.fresh('fk', Val)
        kv = SV(k)
        ne = And(*[Not(self.eq(kv, x)) for x in keys])
        pre, post = self.without(pre, keys), self.without(post, keys)
        h0, h1 = self.has(pre, kv), self.has(post, kv)
        return forall([k], Imp(ne, And(Iff(h0, h1), Imp(And(h0, h1), self.same(self.get(pre, kv), self.get(post, kv))))))

    def before(self, v, sep):
        """the first piece of v.split(sep)"""
        return SV(lnth(self.I.SPLIT(self.strof(v), z3.StringVal(sep)), z3.IntVal(0)))

    def startswith(self, v, p):
        return self.g(lambda x: And(is_kind(self.I.term(x), 'Str_'),
                                    z3.PrefixOf(self.strof(p), self.strof(x))), v)

    def endswith(self, v, p):
        return self.g(lambda x: And(is_kind(self.I.term(x), 'Str_'),
                                    z3.SuffixOf(self.strof(p), self.strof(x))), v)

    def contains(self, v, p):
        """substring"""
        return self.g(lambda x: And(is_kind(self.I.term(x), 'Str_'),
                                    z3.Contains(self.strof(x), self.strof(p))), v)

    def charset(self, v, codes):
        """every character of the str lies in the set of code points"""
        def f(x):
            s = self.strof(x)
            ix = self.c.fresh('ci', I)
            ch = z3.SubString(s, ix, 1)
            return And(is_kind(self.I.term(x), 'Str_'),
                       forall([ix], Imp(And(ix >= 0, ix < z3.Length(s)),
                                        Or(*[ch == z3.StringVal(chr(k)) for k in sorted(codes)]))))
        return self.g(f, v)

    def concat(self, *xs):
        zs = [self.strof(x) for x in xs]
        return mkstr(z3.Concat(*zs) if len(zs) > 1 else zs[0])

    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)
    Imp = staticmethod(Imp)
    Iff = staticmethod(Iff)

    def uf(self, name, *args):
        """spec function known to the models"""
        return self.I.spec[name](self, *args)


def welltyped_cond(h, v, typ, null, val_none_ok=True):
    """formula: value term v is one the loader stores for a parameter declared (typ)"""
    I_ = h.I
    if isinstance(typ, tuple):
        typ = typ[0]
    M = sys.modules['oidcmsg.message'].Message
    none = is_kind(v, 'None_')
    if isinstance(typ, list):
        e = typ[0]
        l = Val.l(v)
        if e is str:
            return Or(none if null else False, And(is_kind(v, 'List_'), lstr(l)))
        if isinstance(e, type) and issubclass(e, M):
            i = h.c.fresh('wi', I)
            codes = [k for k, c in I_.class_codes.items() if issubclass(c, e)]
            el = lnth(l, i)
            return Or(none if null else False,
                      And(is_kind(v, 'List_'),
                          forall([i], Imp(And(i >= 0, i < llen(l)),
                                          And(is_kind(el, 'Msg_'), Or(*[mcls(Val.m(el)) == k for k in codes]))))))
        return is_kind(v, 'List_', 'None_')
    if typ is str:
        return Or(none, is_kind(v, 'Str_'))
    if typ is int:
        return Or(none, is_kind(v, 'Int_'))
    if typ is bool:
        return Or(none, is_kind(v, 'Bool_'))
    if typ is dict:
        return Or(none, is_kind(v, 'Dict_'))
    if isinstance(typ, type) and issubclass(typ, M):
        if typ is M:
            return Or(none, is_kind(v, 'Msg_', 'Dict_', 'Str_'))
        codes = [k for k, c in I_.class_codes.items() if issubclass(c, typ)]
        return Or(none, And(is_kind(v, 'Msg_'), Or(*[mcls(Val.m(v)) == k for k in codes])))
    return z3.Not(Val.is_Obj_(v))


def welltyped_facts(h, d, cls):
    for attr, spec in cls.c_param.items():
        if attr == '*':
            continue
        typ, _, _, deser, null = spec
        k = VStr(attr)
        v = dget(d, k)
        if deser is not None and not _standard_deser(deser):
            f = special_welltyped(h, v, spec)
        else:
            f = welltyped_cond(h, v, typ, null)
        f = Imp(dhas(d, k), f)
        if not isinstance(f, bool):
            h.c.lazy[(d.get_id(), k.get_id())] = (f, d, k)


def _standard_deser(f):
    return getattr(f, '__name__', '') in (
        'list_deserializer', 'sp_sep_list_deserializer', 'msg_deser', 'msg_list_deser', 'request_deser',
        'link_deser', 'address_deser', 'idtoken_deser', 'registration_request_deser', 'msg_ser')


def special_welltyped(h, v, spec):
    typ, null = spec[0], spec[4]
    nm = getattr(spec[3], '__name__', '')
    if nm == 'json_deserializer':
        return z3.Not(Val.is_Obj_(v))
    if nm == 'claims_deser' or nm == 'claims_request_deser':
        return welltyped_cond(h, v, typ, null)
    return welltyped_cond(h, v, typ, null)
