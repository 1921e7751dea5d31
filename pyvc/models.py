"""Trusted models of what lies outside the repository, and the native set-up."""
import calendar
import datetime as _dt
import sys
import time as _time
import types
import z3

from .vals import *
from .ctx import Unsupported
from .heap import *
from .native import NatH, NOW0
from .calls import fid

CLOCK = z3.Real('CLOCK')              # the clock reading (seconds since the epoch)
STRP = z3.Function('strp_ok', S, S, B)        # text matches the time format
STRPV = z3.Function('strp_val', S, S, I)      # the instant it denotes
URLOK = z3.Function('url_ok', S, B)
URLP = {n: z3.Function('url_' + n, S, S) for n in ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')}


class NatHX(NatH):
    pass


# ------------------------------------------------------------------ native set-up
def fake_datetime(now):
    class Meta(type(_dt.datetime)):
        def __instancecheck__(cls, o):
            return isinstance(o, _dt.datetime)

    class FakeDT(_dt.datetime, metaclass=Meta):
        @classmethod
        def utcnow(cls):
            return _dt.datetime(1970, 1, 1) + _dt.timedelta(seconds=now)

        @classmethod
        def now(cls, tz=None):
            return _dt.datetime.fromtimestamp(now, tz)

        @classmethod
        def today(cls):
            return cls.now()
    FakeDT.__name__ = 'datetime'
    return FakeDT


REAL = {n: getattr(_time, n) for n in ('time', 'gmtime', 'localtime', 'strftime')}


def native_setup(h):
    now = h.now_()
    fdt = fake_datetime(now)
    h.patch(_time, 'time', lambda: now)
    h.patch(_time, 'gmtime', lambda s=None: REAL['gmtime'](now if s is None else s))
    h.patch(_time, 'localtime', lambda s=None: REAL['localtime'](now if s is None else s))
    h.patch(_time, 'strftime', lambda f, t=None: REAL['strftime'](f, REAL['localtime'](now) if t is None else t))
    for n, m in list(sys.modules.items()):
        if n.startswith('oidcmsg') and m is not None:
            d = m.__dict__.get('datetime')
            if d is _dt.datetime:
                h.patch(m, 'datetime', fdt)
            elif d is _dt:
                p = types.ModuleType('datetime')
                p.__dict__.update(_dt.__dict__)
                p.datetime = fdt
                h.patch(m, 'datetime', p)


def all_message_classes():
    import oidcmsg.message as M
    import oidcmsg.oauth2, oidcmsg.oidc, oidcmsg.oidc.session, oidcmsg.oidc.identity_assurance
    import oidcmsg.oauth2.device_authorization
    out, todo = [], [M.Message]
    while todo:
        c = todo.pop(0)
        if c not in out:
            out.append(c)
            todo.extend(c.__subclasses__())
    return [c for c in out if c.__module__.startswith('oidcmsg')]


# ------------------------------------------------------------------ installation
MODELS = []


def model(*fns):
    def deco(f):
        for fn in fns:
            MODELS.append((fn, f))
        return f
    return deco


EXTM = {}


def extm(kind, *names):
    def deco(f):
        for n in names:
            EXTM[(kind, n)] = f
        return f
    return deco


REALIZERS = []


def install(I_):
    from . import tokmodel, hooks
    for i, c in enumerate(all_message_classes()):
        I_.class_codes[i] = c
    for fn, f in MODELS:
        I_.models[fid(fn)] = f
    I_.extm.update(EXTM)
    I_.realizers = list(REALIZERS)
    I_.spec = {}


def use_contract(I_, c):
    c.install(I_)


def kwv(kw, name, default=None):
    """keyword given literally"""
    for e in reversed(kw.lay):
        if isinstance(e, Ent) and e.key == name:
            return e.val
    return default


# ------------------------------------------------------------------ clock and dates
def clock(I_):
    I_.assumed.add('the clock does not advance during one call; its reading lies between 1970 and 2242')
    c = CLOCK >= 0
    if c.get_id() not in I_.c.pcset:
        I_.c.assume(CLOCK >= 0)
        I_.c.assume(CLOCK < 2 ** 33)
    return CLOCK


@model(_time.time)
def m_time(I_, a, kw):
    return SV(Val.Flt_(clock(I_)))


def mkdt(t, aware=False):
    return Ext('dt', t=t, aware=aware, __cls__=_dt.datetime)


@model(_dt.datetime.utcnow)
def m_utcnow(I_, a, kw):
    return mkdt(clock(I_))


@model(_dt.datetime.now)
def m_now(I_, a, kw):
    tz = a[0] if a else kwv(kw, 'tz')
    if tz is _dt.timezone.utc:
        return mkdt(clock(I_), True)
    raise Unsupported('datetime.now() in local time')


@model(_dt.datetime)
def m_datetime(I_, a, kw):
    if all(isinstance(x, int) for x in a):
        try:
            d = _dt.datetime(*a, **{e.key: e.val for e in kw.lay})
        except Exception as e:
            I_.throw(type(e), *e.args)
        if d.tzinfo in (None, _dt.timezone.utc):
            return mkdt(z3.RealVal(calendar.timegm(d.timetuple())), d.tzinfo is not None)
    raise Unsupported('datetime() with symbolic arguments')


def dt_sub(I_, a, b):
    if isinstance(a, Ext) and a.kind == 'dt' and isinstance(b, Ext) and b.kind == 'dt':
        if a.f['aware'] != b.f['aware']:
            I_.throw(TypeError, "can't subtract offset-naive and offset-aware datetimes")
        return mktd(a.f['t'] - b.f['t'])
    if isinstance(a, Ext) and a.kind == 'dt' and isinstance(b, Ext) and b.kind == 'td':
        return mkdt(a.f['t'] - b.f['s'], a.f['aware'])
    if isinstance(a, Ext) and a.kind == 'td' and isinstance(b, Ext) and b.kind == 'td':
        return mktd(a.f['s'] - b.f['s'])
    I_.throw(TypeError, 'unsupported operand type(s) for -')


def dt_add(I_, a, b):
    if not (isinstance(a, Ext) and isinstance(b, Ext)):
        I_.throw(TypeError, 'unsupported operand type(s) for +')
    if a.kind == 'td' and b.kind == 'dt':
        a, b = b, a
    if a.kind == 'dt' and b.kind == 'td':
        return mkdt(a.f['t'] + b.f['s'], a.f['aware'])
    if a.kind == 'td' and b.kind == 'td':
        return mktd(a.f['s'] + b.f['s'])
    I_.throw(TypeError, 'unsupported operand type(s) for +')


def dt_cmp(op):
    def f(I_, a, b):
        if isinstance(a, Ext) and isinstance(b, Ext) and a.kind == b.kind == 'dt':
            return mkbool(op(a.f['t'], b.f['t']))
        if isinstance(a, Ext) and isinstance(b, Ext) and a.kind == b.kind == 'td':
            return mkbool(op(a.f['s'], b.f['s']))
        I_.throw(TypeError, 'ordering not supported')
    return f


import operator as _op
for _k in ('dt', 'td'):
    EXTM[(_k, '-')] = dt_sub
    EXTM[(_k, '+')] = dt_add
    for _n, _f in (('Lt', _op.lt), ('LtE', _op.le), ('Gt', _op.gt), ('GtE', _op.ge)):
        EXTM[(_k, _n)] = dt_cmp(_f)


def mktd(s):
    return Ext('td', s=s, __cls__=_dt.timedelta)


@extm('td', 'total_seconds')
def td_total(I_, o, a, kw):
    return SV(Val.Flt_(o.f['s']))


@model(_dt.timedelta)
def m_timedelta(I_, a, kw):
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    mul = {'days': 86400, 'seconds': 1, 'microseconds': z3.Q(1, 1000000), 'milliseconds': z3.Q(1, 1000),
           'minutes': 60, 'hours': 3600, 'weeks': 604800}
    vals = dict(zip(names, a))
    for e in kw.lay:
        if not isinstance(e, Ent) or e.cond is not True or e.key not in names:
            raise Unsupported('timedelta arguments')
        vals[e.key] = e.val
    tot = z3.RealVal(0)
    for n, v in vals.items():
        t = I_.term(v)
        if not I_.c.branch(is_num(t)):
            I_.throw(TypeError, 'unsupported type for timedelta component')
        tot = tot + num(t) * mul[n]
    I_.assumed.add('timedelta arithmetic is exact and does not overflow')
    return mktd(tot)


def strz(I_, v, what):
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, SV) and I_.c.branch(is_kind(v.t, 'Str_')):
        return acc('Str_', v.t)
    I_.throw(TypeError, '%s argument must be str' % what)


@model(_time.strptime)
def m_strptime(I_, a, kw):
    s, f = strz(I_, a[0], 'strptime'), strz(I_, a[1] if len(a) > 1 else kwv(kw, 'format'), 'strptime')
    I_.assumed.add('time.strptime raises ValueError exactly for texts that do not match the format')
    if I_.c.branch(STRP(f, s)):
        return Ext('stime', t=STRPV(f, s), __cls__=_time.struct_time)
    I_.throw(ValueError, 'time data does not match format')


@model(_dt.datetime.strptime)
def m_dtstrptime(I_, a, kw):
    s, f = strz(I_, a[0], 'strptime'), strz(I_, a[1], 'strptime')
    I_.assumed.add('datetime.strptime raises ValueError exactly for texts that do not match the format')
    if I_.c.branch(STRP(f, s)):
        return mkdt(z3.ToReal(STRPV(f, s)))
    I_.throw(ValueError, 'time data does not match format')


def realize_strp(conc):
    """replace model strings by real texts that (mis)match the formats as the model says"""
    by = {}
    for a in conc.apps:
        if a.decl().name() == 'strp_ok':
            f, s = conc.ev(a.arg(0)), conc.ev(a.arg(1))
            if z3.is_string_value(f) and z3.is_string_value(s):
                by.setdefault(z3str(s), {})[z3str(f)] = conc.isT(a)
    pool = ['2000-02-29', '1999', '0000-01-31', 'x', '2017-11-05T12:30:00Z', '2017-11-05', '12:30', '2017-11-05T12:30Z',
            '2017-11-05T12:30:00+0100', '2017-11-05T12:30Z+0100', '23', '0', '']
    for s, want in by.items():
        for p in [s] + pool:
            ok = True
            for f, w in want.items():
                try:
                    _time.strptime(p, f)
                    r = True
                except ValueError:
                    r = False
                ok = ok and r == w
            if ok:
                conc.strmap[s] = p
                break


REALIZERS.append(realize_strp)


# ------------------------------------------------------------------ copies
import copy as _copy


def deep(I_, v, depth=0):
    if isinstance(v, HObj):
        if not I_.is_message(v):
            raise Unsupported('deepcopy of %s' % v.cls)
        return HObj(v.cls, {k: deep(I_, x, depth + 1) for k, x in v.attrs.items()})
    if isinstance(v, HDict):
        n = I_.dsnap(v)
        n.deep = True
        return n
    if isinstance(v, HList):
        return HList(list(v.items), v.kind)
    if isinstance(v, (Ext, DictView)):
        raise Unsupported('deepcopy of an external object')
    return v


@model(_copy.deepcopy)
def m_deepcopy(I_, a, kw):
    I_.assumed.add('copy.deepcopy gives an equal value of the same type that shares nothing changeable with the original')
    return deep(I_, a[0])


@model(_copy.copy)
def m_copy(I_, a, kw):
    v = a[0]
    if isinstance(v, HObj) and I_.is_message(v):
        return HObj(v.cls, dict(v.attrs))
    if isinstance(v, HDict):
        return I_.dsnap(v)
    if isinstance(v, HList):
        return HList(list(v.items), v.kind)
    if isinstance(v, (Ext, DictView)):
        raise Unsupported('copy of an external object')
    return v


# ------------------------------------------------------------------ urlparse
from urllib.parse import urlparse as _urlparse, urlsplit as _urlsplit


@model(_urlparse, _urlsplit)
def m_urlparse(I_, a, kw):
    s = strz(I_, a[0], 'urlparse')
    I_.assumed.add('urllib.parse.urlparse: components are functions of the text; ValueError for malformed hosts')
    if not I_.c.branch(URLOK(s)):
        I_.throw(ValueError, 'Invalid URL')
    return Ext('url', **{n: SV(Val.Str_(f(s))) for n, f in URLP.items()})


def realize_url(conc):
    seen = {}
    for a in conc.apps:
        n = a.decl().name()
        if n.startswith('url_'):
            s = conc.ev(a.arg(0))
            if z3.is_string_value(s):
                seen.setdefault(z3str(s), {})[n[4:]] = (conc.isT(a) if n == 'url_ok' else z3str(conc.ev(a)))
    for s, w in seen.items():
        if w.get('ok') is False:
            conc.strmap[s] = 'https://[x'
            continue
        sch = w.get('scheme', 'https')
        if sch != 'https':
            sch = 'http'
        u = sch + '://op.example.org/p'
        if w.get('query'):
            u += '?q=1'
        if w.get('fragment'):
            u += '#f'
        conc.strmap[s] = u


REALIZERS.append(realize_url)
