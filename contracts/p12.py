"""P12: time, audience and issuer limits of generic JWT claim sets."""
from .common import *
from .verify import *

HINTS = {'exp': [NOWH, NOWH + 1, NOWH - 1, NOWH - 60, NOWH - 61, None], 'iat': [NOWH, NOWH + 1, NOWH + 60, NOWH + 61],
         'nbf': [NOWH, NOWH + 1, NOWH - 1, NOWH + 60, NOWH + 61, NOWH - 61], 'aud': [['a'], ['a', 'b'], ['b'], []],
         'iss': ['a', 'b']}


def jwt_rules(h, m, kw):
    has, get, A, N = h.has, h.get, h.And, h.Not
    skew = h.getdef(kw, 'skew', 0)
    now = h.now()
    isn = lambda k: h.isnum(get(m, k))
    return {
        'expired': (A(has(m, 'exp'), isn('exp'), h.lt(get(m, 'exp'), h.minus(now, skew))), oi.EXPError),
        'issued in the future': (A(has(m, 'iat'), isn('iat'), h.lt(h.plus(now, skew), get(m, 'iat'))), oi.EXPError),
        'not valid yet': (A(has(m, 'nbf'), isn('nbf'), h.lt(h.plus(now, skew), get(m, 'nbf'))), oi.EXPError),
        'not among the audiences': (A(has(kw, 'aud'), has(m, 'aud'), N(h.mem(get(kw, 'aud'), get(m, 'aud')))), X.NotForMe),
        'another issuer': (A(has(kw, 'iss'), has(m, 'iss'), N(h.eq(get(kw, 'iss'), get(m, 'iss')))), ValueError),
    }


def not_a_time(h, m, keys):
    """a null in place of a time"""
    return h.Or(*[h.And(h.has(m, k), h.Not(h.isnum(h.get(m, k)))) for k in keys])


def verify_jwt(cls):
    def ob(h):
        m = h.message('m', cls, hints=HINTS)
        kw = h.kwargs('kw', opt={'skew': h.int('kskew', hint=[0, 60, 5]), 'aud': h.str('kaud', hint=['a', 'b']),
                                 'iss': h.str('kiss', hint=['a', 'b'])}, others=True)
        pre = h.snap(m)
        r = h.call((m, 'verify'), kw_=kw)
        rules = dict(base_rules(h, pre, cls))
        rules['a time is no number'] = (not_a_time(h, pre, ('exp', 'iat', 'nbf')), TypeError)
        rules.update(jwt_rules(h, pre, kw))
        decide(h, r, rules, extra=[(h.And(h.has(kw, 'aud'), h.has(pre, 'aud'), h.isnone(h.get(pre, 'aud'))), TypeError)])
        h.check('claims unchanged', h.unchanged(pre, m))
    return ob


for c in all_message_classes():
    if issubclass(c, oi.JsonWebToken):
        obligation('P12', '%s.verify' % cname(c), need=('accept',), contracts=[MessageVerify()])(verify_jwt(c))
        prove_base('P12', c)
