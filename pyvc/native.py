"""Native twin of the harness API: runs the harness text against the imported code on
concrete inputs (replay of counterexamples and witnesses; bounded random search)."""
import copy
import datetime as _dt
import random
import sys
import time
import traceback

from .harness import Res, Skip

NOW0 = 1600000000


class NatFail(BaseException):
    def __init__(self, label):
        self.label = label


class Absent:
    pass


STRPOOL = ['a', 'b', '', 'https://op.example.org', 'https://rp.example.org/cb', 'none', 'openid', 'code',
           'x y', 'RS256', 'A128CBC-HS256', '0', 'id_token', 'http://a', 'https://op.example.org?x=1',
           'https://a#f', '/', '..', 'a.b', 'ü', 'a,b']


def calm(r):
    """True: generate the usual value here"""
    return r.random() < getattr(r, 'calm', 0)


def sel(r, good, *others):
    return good if calm(r) else r.choice((good,) + others)


def clone(v):
    try:
        return copy.deepcopy(v)
    except Exception:
        return v


class Snap:
    """copy of a message's state"""

    def __init__(self, m):
        self.cls = type(m)
        self._dict = clone(m._dict)
        self.attrs = {k: v for k, v in m.__dict__.items() if k != '_dict'}


class NatH:
    sym = False

    def __init__(self, conc=None, rng=None, nowval=None, scratch=None):
        self.conc = conc or {}
        self.rng = rng
        self.used = {}
        self.calls = []
        self.labels = []
        self.failed = []
        self.patches = []
        self._objs = []
        self.scratch = scratch

    # ------------------------------------------------------------ inputs
    def now_(self):
        if 'NOW' in self.conc:
            n = self.conc['NOW']
        else:
            n = NOW0 + 0.25
        self.used['NOW'] = n
        return n

    def now(self):
        return int(self.now_())

    def strp(self, fmt, v):
        try:
            time.strptime(v, fmt)
            return True
        except (ValueError, TypeError):
            return False

    def urlok(self, v):
        from urllib.parse import urlparse
        try:
            urlparse(v)
            return True
        except ValueError:
            return False

    def url(self, v, part):
        from urllib.parse import urlparse
        return getattr(urlparse(v), part) if self.urlok(v) else ''

    def _in(self, name, gen):
        if name in self.conc:
            v = clone(self.conc[name])
        elif self.rng is not None:
            v = gen(self.rng)
        else:
            v = gen(random.Random(0))
        self.used[name] = clone(v)
        return v

    def val(self, name, *kinds, hint=None):
        return self._in(name, lambda r: self.rnd(r, kinds, hint))

    def str(self, name, hint=None):
        return self.val(name, 'str', hint=hint)

    def int(self, name, hint=None):
        return self.val(name, 'int', hint=hint)

    def bool(self, name):
        return self.val(name, 'bool')

    def strlist(self, name, hint=None):
        return self._in(name, lambda r: [r.choice(hint or STRPOOL) for _ in range(r.choice([0, 1, 1, 2, 3]))])

    def rnd(self, r, kinds=(), hint=None, depth=0):
        if hint and not callable(hint) and calm(r):
            return hint[0]
        if hint and (callable(hint) or r.random() < 0.75):
            return hint(r) if callable(hint) else r.choice(hint)
        k = r.choice(kinds or ('none', 'bool', 'int', 'str', 'str', 'list', 'dict', 'float'))
        if k == 'none':
            return None
        if k == 'bool':
            return r.random() < 0.5
        if k == 'int':
            return r.choice([0, 1, -1, 5, NOW0, NOW0 - 1, NOW0 + 1, NOW0 - 14400, NOW0 + 300, NOW0 - 20000,
                             r.randint(-20, 20), NOW0 + r.randint(-30, 30)])
        if k == 'float':
            return r.choice([0.0, 1.5, NOW0 + 0.5])
        if k == 'str':
            return r.choice(STRPOOL)
        if k == 'bytes':
            return b'x'
        if k == 'list':
            return [self.rnd(r, ('str', 'str', 'str', 'int', 'dict') if depth < 2 else ('str',), None, depth + 1)
                    for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if k == 'dict':
            return {r.choice(STRPOOL): self.rnd(r, ('str', 'int', 'none', 'list', 'dict', 'bool') if depth < 2 else ('str',), None, depth + 1)
                    for _ in range(r.choice([0, 1, 1, 2]))}
        if k == 'msg':
            from oidcmsg.message import Message
            m = Message()
            m._dict.update(self.rnd(r, ('dict',), None, depth + 1))
            return m

    def dict(self, name, strkeys=True, hint=None):
        return self._in(name, lambda r: dict(r.choice(hint)) if hint and r.random() < .6 else self.rnd(r, ('dict',)))

    owndict = dict

    def kwargs(self, name, opt=None, req=None, others=False, exclude=()):
        def gen(r):
            d = {}
            p = r.choice([.5, .5, .1, .02]) if not getattr(r, 'calm', 0) else r.choice([.5, .3, .1])
            for k in (opt or {}):
                if r.random() < p:
                    d[k] = (opt or {})[k]
            return d
        d = dict(req or {})
        if name in self.conc:
            c = self.conc[name]
            for k, v in (opt or {}).items():
                if k in c:
                    d[k] = v
            for k, v in c.items():
                if k not in d and k not in (opt or {}):
                    d[k] = clone(v)
        else:
            d.update(gen(self.rng or random.Random(0)))
        self.used[name] = list(d)
        return d

    def message(self, name, cls, welltyped=True, defaults=False, attrs=None, hints=None):
        d = self._in(name, lambda r: self.rndmsg(r, cls, hints or {}, nulls=not welltyped))
        m = newmsg(cls)
        m._dict.update(d)
        for k, v in (attrs or {}).items():
            setattr(m, k, v)
        return m

    def newmessage(self, cls, attrs=None):
        m = newmsg(cls)
        for k, v in (attrs or {}).items():
            setattr(m, k, v)
        return m

    def rndmsg(self, r, cls, hints, depth=0, nulls=False):
        from oidcmsg.message import Message
        d = {}
        density = r.choice([0.2, 0.5, 0.9])
        for a, (typ, req, _, deser, null) in cls.c_param.items():
            if a == '*':
                continue
            if r.random() > (0.93 if req else density) and not (a in hints and r.random() < .7):
                continue
            if a in hints and (calm(r) or r.random() < 0.85):
                d[a] = hints[a](r) if callable(hints[a]) else clone(r.choice(hints[a]))
                continue
            if isinstance(typ, tuple):
                typ = typ[0]
            al = list(cls.c_allowed_values.get(a, []))
            if (null or nulls or not isinstance(typ, list)) and r.random() < 0.04:
                d[a] = None
            elif isinstance(typ, list):
                e = typ[0]
                n = r.choice([0, 1, 1, 1, 2, 2])
                if e is str:
                    d[a] = [r.choice(al + STRPOOL[:6]) for _ in range(n)]
                    if al and r.random() < .4:
                        # only allowed values, at most one other at any place
                        d[a] = [r.choice(al) for _ in range(r.choice([1, 2, 3, 5, 8]))]
                        if r.random() < .6:
                            d[a].insert(r.randint(0, len(d[a])), r.choice(STRPOOL))
                elif isinstance(e, type) and issubclass(e, Message):
                    d[a] = [newmsg(e, self.rndmsg(r, e, {}, depth + 1)) for _ in range(n)]
                else:
                    d[a] = [self.rnd(r, ('dict',)) for _ in range(n)]
            elif typ is str:
                d[a] = r.choice(al + al + STRPOOL)
            elif typ is int:
                d[a] = self.rnd(r, ('int',))
            elif typ is bool:
                d[a] = r.random() < .5
            elif typ is dict:
                d[a] = self.rnd(r, ('dict',))
            elif isinstance(typ, type) and issubclass(typ, Message):
                d[a] = newmsg(typ, self.rndmsg(r, typ, {}, depth + 1)) if depth < 3 else newmsg(typ)
            else:
                d[a] = self.rnd(r)
        for a in hints:
            if a not in d and a not in cls.c_param and r.random() < 0.5:
                d[a] = hints[a](r) if callable(hints[a]) else clone(r.choice(hints[a]))
        if r.random() < 0.3:
            d[r.choice(['extra', 'foo#sv', 'x'] + [a + '#sv' for a in cls.c_param][:12])] = self.rnd(r, ('str', 'int', 'list'))
        return d

    def obj(self, cls, attrs):
        o = cls.__new__(cls)
        for k, v in attrs.items():
            setattr(o, k, v)
        return o

    def mkdict(self, items):
        return dict(items)

    def mklist(self, items):
        return list(items)

    def ext(self, name, e, concretize):
        raise NotImplementedError

    def pick(self, name, options):
        i = self._in(name, lambda r: 0 if calm(r) and r.random() < .5 else r.randrange(len(options)))
        return options[i]

    # ------------------------------------------------------------ execution
    def call(self, f, *args, **kw):
        kwd = kw.pop('kw_', None)
        k = dict(kwd or {})
        k.update(kw)
        try:
            if isinstance(f, tuple):
                f = getattr(f[0], f[1])
            r = Res(True, f(*args, **k))
        except Exception as e:
            r = Res(False, None, type(e), e)
        self.calls.append(repr(r))
        return r

    def fork(self, f):
        return bool(f)

    def run(self, fn):
        try:
            r = Res(True, fn())
        except Exception as e:
            r = Res(False, None, type(e), e)
        self.calls.append(repr(r))
        return r

    def expr(self, fn):
        return fn()

    def events(self):
        return []

    # ------------------------------------------------------------ verdicts
    def assume(self, f):
        if not f:
            raise Skip()

    def check(self, label, f):
        self.labels.append(label)
        if not f:
            self.failed.append(label)

    def cover(self, label):
        pass

    # ------------------------------------------------------------ spec operations
    def snap(self, m):
        if isinstance(m, dict):
            return clone(m)
        return Snap(m)

    def D(self, m):
        if m is None:
            return {}
        return getattr(m, '_dict', m)

    def has(self, m, key):
        d = self.D(m)
        try:
            return isinstance(d, dict) and key in d
        except TypeError:
            return False

    def get(self, m, key):
        d = self.D(m)
        try:
            return d[key] if isinstance(d, dict) else None
        except (KeyError, TypeError):
            return None

    def attr(self, o, name):
        if isinstance(o, Snap):
            return o.attrs.get(name)
        return getattr(o, name, None)

    def objs(self, v):
        return [(True, v if hasattr(v, '_dict') else None)]

    def isk(self, v, *names):
        from oidcmsg.message import Message
        for n in names:
            if n == 'none' and v is None:
                return True
            if n == 'bool' and isinstance(v, bool):
                return True
            if n == 'int' and isinstance(v, int) and not isinstance(v, bool):
                return True
            if n == 'float' and isinstance(v, float):
                return True
            if n == 'str' and isinstance(v, str):
                return True
            if n == 'bytes' and isinstance(v, bytes):
                return True
            if n == 'list' and isinstance(v, (list, set)):
                return True
            if n == 'dict' and isinstance(v, dict):
                return True
            if n == 'msg' and isinstance(v, Message):
                return True
            if n == 'obj' and not isinstance(v, (type(None), bool, int, float, str, bytes, list, dict, Message)):
                return True
        return False

    def isnum(self, v):
        return isinstance(v, (int, float))

    def isnone(self, v):
        return v is None

    def isinst(self, v, cls):
        return isinstance(v, cls) or (isinstance(v, Snap) and issubclass(v.cls, cls))

    def truthy(self, v):
        if isinstance(v, Snap):
            return bool(v._dict)
        return bool(v)

    def eq(self, a, b):
        return self.plain(a) == self.plain(b)

    def is_true(self, v):
        return v is True

    def is_false(self, v):
        return v is False

    def ident(self, a, b):
        return type(a) is type(b) and self.plain(a) == self.plain(b) or self.same(a, b)

    def plain(self, v):
        if isinstance(v, Snap):
            return ('msg', v.cls.__name__, self.plain(v._dict))
        if hasattr(v, '_dict'):
            return ('msg', type(v).__name__, self.plain(v._dict))
        if isinstance(v, dict):
            return {k: self.plain(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [self.plain(x) for x in v]
        return v

    def same(self, x, y, depth=0):
        x, y = self.plain(x), self.plain(y)
        return strict_eq(x, y)

    def numv(self, v):
        return v

    def lt(self, a, b):
        return self._n(a) < self._n(b)

    def le(self, a, b):
        return self._n(a) <= self._n(b)

    def _n(self, x):
        return x if isinstance(x, (int, float)) else 0

    def plus(self, *xs):
        r = 0
        for x in xs:
            r += self._n(x)
        return r

    def minus(self, a, b):
        return self._n(a) - self._n(b)

    def ite(self, c, a, b):
        return a if c else b

    def getdef(self, m, key, dflt):
        return self.get(m, key) if self.has(m, key) else dflt

    def len(self, v):
        try:
            return len(v._dict if isinstance(v, Snap) else v)
        except TypeError:
            return 0

    def iseq(self, a, n):
        return a == n

    def count(self, v):
        return self.len(v)

    def independent(self, a, b):
        def ids(v, out):
            if isinstance(v, (dict, list, set)) or hasattr(v, '_dict'):
                out.add(id(v))
                if hasattr(v, '_dict'):
                    ids(v._dict, out)
                elif isinstance(v, dict):
                    for x in v.values():
                        ids(x, out)
                else:
                    for x in v:
                        ids(x, out)
            return out
        return not (ids(a, set()) & ids(b, set()))

    def mem(self, x, coll):
        if not isinstance(coll, (list, tuple, set, frozenset)):
            return False
        return any(self.eq(x, e) for e in coll)

    def forall_elems(self, coll, f):
        if not isinstance(coll, (list, tuple, set, frozenset)):
            return True
        return all(f(e) for e in coll)

    def exists_elems(self, coll, f):
        if not isinstance(coll, (list, tuple, set, frozenset)):
            return False
        return any(f(e) for e in coll)

    def forall_keys(self, d, f):
        return all(f(k) for k in list(self.D(d)))

    def forall_anykey(self, f):
        ks = set(STRPOOL)
        for v in self.used.values():
            if isinstance(v, dict):
                ks |= {k for k in v if isinstance(k, str)}
        return all(f(k) for k in sorted(ks))

    def unchanged(self, pre, post, *keys):
        a, b = self.D(pre), self.D(post)
        for k in set(a) | set(b):
            if k in keys:
                continue
            if (k in a) != (k in b) or not self.same(a[k], b[k]):
                return False
        return True

    def before(self, v, sep):
        return v.split(sep)[0]

    def startswith(self, v, p):
        return isinstance(v, str) and v.startswith(p)

    def endswith(self, v, p):
        return isinstance(v, str) and v.endswith(p)

    def contains(self, v, p):
        return isinstance(v, str) and p in v

    def charset(self, v, codes):
        return isinstance(v, str) and all(ord(c) in codes for c in v)

    def concat(self, *xs):
        return ''.join(xs)

    @staticmethod
    def And(*xs):
        return all(bool(x) for x in xs)

    @staticmethod
    def Or(*xs):
        return any(bool(x) for x in xs)

    @staticmethod
    def Not(x):
        return not x

    @staticmethod
    def Imp(a, b):
        return (not a) or bool(b)

    @staticmethod
    def Iff(a, b):
        return bool(a) == bool(b)

    def cleanup(self):
        for undo in reversed(self.patches):
            undo()
        self.patches = []

    def patch(self, obj, name, val):
        miss = object()
        old = obj.__dict__.get(name, miss)
        setattr(obj, name, val)

        def undo():
            if old is miss:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.patches.append(undo)


def strict_eq(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, dict):
        return set(x) == set(y) and all(strict_eq(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(strict_eq(a, b) for a, b in zip(x, y))
    return x == y


def newmsg(cls, d=None):
    m = cls(set_defaults=False)
    if d:
        m._dict.update(d)
    return m


def subclass_ok(c):
    return True
