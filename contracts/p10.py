"""P10: OpenID authorization requests obey the protocol's conditional requirements."""
from .common import *
from .verify import *
from .tokens import *
from .authreq import *


def rules(h, m, kw):
    """over the parameters finally in effect"""
    A, N, O, I = h.And, h.Not, h.Or, h.Imp
    rt, scope, prompt = h.get(m, 'response_type'), h.get(m, 'scope'), h.get(m, 'prompt')
    idt = A(h.has(m, 'response_type'), h.mem('id_token', rt))
    missing, bad = base_violations(h, m, oi.AuthorizationRequest)
    offline = A(h.has(m, 'scope'), h.mem('offline_access', scope))
    return {
        'a required parameter is missing': missing,
        'a restricted parameter has a value that is not allowed': bad,
        'openid is not in the scope': N(A(h.has(m, 'scope'), h.mem('openid', scope))),
        'an ID Token is requested without nonce': A(idt, N(h.has(m, 'nonce'))),
        'the nonce is not the expected one': A(idt, h.has(kw, 'nonce'), N(h.eq(h.get(m, 'nonce'), h.get(kw, 'nonce')))),
        'prompt none is combined': A(h.has(m, 'prompt'), h.mem('none', prompt), h.lt(1, h.len(prompt))),
        'offline access without consent': A(offline, N(A(h.has(m, 'prompt'), h.mem('consent', prompt)))),
    }


def body(cls):
    def ob(h):
        m = h.message('m', cls, hints=HINTS)
        kj, kw = req_kw(h, nonce=h.str('knonce', hint=['n', 'm']))
        r = h.call((m, 'verify'), kw_=kw)
        if not outcome(h, r):
            return
        for n, v in rules(h, m, kw).items():
            h.check('accepted => not: ' + n, h.Not(v))
    return ob


for c in all_message_classes():
    if issubclass(c, oi.AuthorizationRequest):
        obligation('P10', '%s.verify' % cname(c), need=('accept',), contracts=CONTRACTS)(body(c))
        prove_base('P10', c)
