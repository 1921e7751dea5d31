"""P02: a response's ID Token is taken over only if signed and bound as required."""
from .common import *
from .verify import *
from .tokens import *

NOWI = NOWH
CONTRACTS = [MessageVerify(), FromJwt(), IdTokenVerify(), ToDict()]
CALLER = CONTRACTS + [VerifyIdToken()]


def idclaims(r):
    """claims of a token that is mostly acceptable"""
    from cryptojwt.jws.utils import left_hash
    from pyvc.native import sel, calm
    c = {'iss': sel(r, ISS[0], ISS[1], 'other'), 'sub': 's', 'aud': [sel(r, 'a', 'b')], 'exp': NOWI + 100, 'iat': NOWI - 5}
    if r.random() < .5:
        c['nonce'] = sel(r, 'a', 'b')
    for k, txt in (('at_hash', 'tok'), ('c_hash', 'cod')):
        if calm(r) or r.random() < .7:
            c[k] = left_hash(sel(r, txt, 'x', 'a'), r.choice(['HS256', 'HS256', 'HS384', 'HS512']))
    if r.random() < .1:
        c['azp'] = sel(r, 'a', 'b')
    if not calm(r) and r.random() < .1:
        del c[r.choice(list(c))]
    return c


def idtxt(r):
    return toknat.rndtoken(r, idclaims, algs=['RS256', 'RS256', 'ES256', 'ES384', 'HS512', 'none'])


def token_accepted(h, pre, post, kj, kw, claim, check_hash):
    for lab, f in token_clauses(h, pre, post, kj, kw, claim, check_hash):
        h.check(lab, f)


def response(cls, claim, check_hash):
    def ob(h):
        hints = {claim: idtxt, 'access_token': ['tok'], 'code': ['cod'], 'aud': [['a'], ['b']], 'client_id': ['a'], 'iss': ISS}
        m = h.message('m', cls, hints=hints)
        kj, kw = token_kw(h)
        pre = h.snap(m)
        r = h.call((m, 'verify'), kw_=kw)
        if not r.ok:
            h.cover('refuse ' + r.exc.__name__)
            return
        if not h.fork(h.truthy(r.val)):
            h.cover('refuse False')
            return
        h.cover('accept')
        if h.fork(h.has(pre, claim)):
            h.cover('accept with token')
            token_accepted(h, pre, m, kj, kw, claim, check_hash)
    return ob


@obligation('P02', 'verify_id_token', need=('accept',), contracts=CONTRACTS)
def vid(h):
    """the function itself, any claim name and message"""
    claim = h.pick('claim', ['id_token', 'id_token_hint'])
    check = h.pick('check_hash', [True, False])
    m = h.message('m', Message, welltyped=False, hints={claim: idtxt, 'access_token': ['tok'], 'code': ['cod']})
    h.assume(h.And(h.has(m, claim), h.Not(h.isk(h.get(m, claim), 'bytes')), h.Not(h.isk(h.get(m, 'access_token'), 'bytes')),
                   h.Not(h.isk(h.get(m, 'code'), 'bytes'))))
    kj, kw = token_kw(h)
    pre = h.snap(m)
    r = h.call(oi.verify_id_token, m, check_hash=check, claim=claim, kw_=kw)
    if not r.ok:
        h.cover('refuse ' + r.exc.__name__)
        return
    if not h.fork(h.truthy(r.val)):
        h.cover('refuse False')
        h.check('refused => message unchanged', h.unchanged(pre, m))
        return
    h.cover('accept')
    token_accepted(h, pre, m, kj, kw, claim, check)
    h.check('nothing else changes', h.unchanged(pre, m, '__verified_' + claim))


for c in all_message_classes():
    for base, claim, hashes in ((oi.AccessTokenResponse, 'id_token', False), (oi.AuthorizationResponse, 'id_token', True),
                                (oi.MessageWithIdToken, 'id_token', False), (ses.EndSessionRequest, 'id_token_hint', False)):
        if issubclass(c, base):
            obligation('P02', '%s.verify' % cname(c), need=('accept',), contracts=CALLER)(response(c, claim, hashes))
            break
