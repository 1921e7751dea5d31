"""P04: a caller-supplied 'verified' marker never survives as if it had been verified."""
from .common import *
from .verify import *
from .tokens import *
from .authreq import *
from . import p02, p11

FORGED = ['forged', {'sub': 'admin'}]


def marker(h, m, mark, present, cls, txt, kj, kw, verify=True, sigalg=None):
    """after acceptance: the marker is there exactly when the token is, and is what was decoded from it"""
    if not h.fork(present):
        h.cover('no ' + mark)
        h.check('no token => no %s' % mark, h.Not(h.has(m, mark)))
        return
    h.cover('with ' + mark)
    h.check('%s is there' % mark, h.has(m, mark))
    for lab, f in decoded(h, h.get(m, mark), cls, txt, kj, kw, verify, sigalg):
        h.check('%s: %s' % (mark, lab), f)


def carried(h, m, k):
    return h.And(h.has(m, k), h.Not(h.isnone(h.get(m, k))))


def idt_family(cls, claim):
    mark = '__verified_' + claim

    def ob(h):
        m = h.message('m', cls, hints={claim: p02.idtxt, 'access_token': ['tok'], 'code': ['cod'], 'aud': [['a'], ['b']],
                                       'client_id': ['a'], 'iss': ISS, mark: FORGED})
        kj, kw = token_kw(h)
        pre = h.snap(m)
        r = h.call((m, 'verify'), kw_=kw)
        if outcome(h, r):
            # the identity token is never taken from an encrypted value here (P02: it is a JWS)
            marker(h, m, mark, h.has(pre, claim), oi.IdToken, h.get(pre, claim), kj, kw, h.getdef(kw, 'verify', True),
                   h.getdef(kw, 'sigalg', None))
    return ob


def bclr(h):
    m = h.message('m', ses.BackChannelLogoutRequest, hints={'logout_token': p11.ltxt, '__verified_logout_token': FORGED})
    kj, kw = p11.jwt_kw(h, iss=h.str('kiss', hint=ISS), aud=h.str('kaud', hint=['a', 'b']), skew=h.int('kskew', hint=[0, 1, 60]),
                        allowed_sign_alg=h.val('kallowed', 'str', 'none', hint=['RS256', 'RS256', 'ES256', 'none', '']))
    pre = h.snap(m)
    r = h.call((m, 'verify'), kw_=kw)
    if outcome(h, r):
        marker(h, m, '__verified_logout_token', h.has(pre, 'logout_token'), ses.LogoutToken, h.get(pre, 'logout_token'), kj, kw,
               h.getdef(kw, 'verify', True), h.getdef(kw, 'sigalg', None))


def authreq(cls, roc, hint):
    def ob(h):
        m = h.message('m', cls, hints=dict(HINTS, **{k: FORGED for k in CLEARED}))
        kj, kw = req_kw(h)
        pre = h.snap(m)
        r = h.call((m, 'verify'), kw_=kw)
        if not outcome(h, r):
            return
        marker(h, m, MARK, carried(h, pre, 'request'), roc, h.get(pre, 'request'), kj, kw)
        if hint:
            # the hint in effect, which may come with the request object
            marker(h, m, HINT, carried(h, m, 'id_token_hint'), oi.IdToken, h.get(m, 'id_token_hint'), kj, kw)
            for k in ('__verified_id_token', '__verified_id_token_hint'):
                h.check('no ' + k, h.Not(h.has(m, k)))
    return ob


@obligation('P04', 'clear_verified_claims', need=('ok',))
def clear(h):
    m = h.message('m', Message, welltyped=False, hints={k: FORGED for k in CLEARED})
    pre = h.snap(m)
    r = h.call(oi.clear_verified_claims, m)
    h.check('never refused', r.ok)
    if not r.ok:
        return
    h.cover('ok')
    names = ['__verified_' + k for k in ('id_token', 'id_token_hint', 'request')]
    for k in names:
        h.check('no ' + k, h.Not(h.has(m, k)))
    h.check('nothing else changes', h.unchanged(pre, m, *names))


ACC = ('accept',)
for c in all_message_classes():
    n = '%s.verify' % cname(c)
    for base, claim in ((oi.AccessTokenResponse, 'id_token'), (oi.AuthorizationResponse, 'id_token'),
                        (oi.MessageWithIdToken, 'id_token'), (ses.EndSessionRequest, 'id_token_hint')):
        if issubclass(c, base):
            w = ('with __verified_' + claim,)
            if not c.c_param[claim][1]:
                w += ('no __verified_' + claim,)
            obligation('P04', n, need=ACC + w, contracts=p02.CALLER)(idt_family(c, claim))
            break
    for base, roc, hint in ((o2.JWTSecuredAuthorizationRequest, o2.AuthorizationRequest, False),
                            (o2.PushedAuthorizationRequest, o2.AuthorizationRequest, False),
                            (oi.AuthorizationRequest, oi.OpenIDRequest, True)):
        if issubclass(c, base):
            w = ('with ' + MARK, 'no ' + MARK) + (('with ' + HINT, 'no ' + HINT) if hint else ())
            obligation('P04', n, need=ACC + w, contracts=CONTRACTS)(authreq(c, roc, hint))
            break
    if issubclass(c, ses.BackChannelLogoutRequest):
        obligation('P04', n, need=ACC, contracts=[p11.LogoutVerify()] + p11.CONTRACTS)(bclr)
