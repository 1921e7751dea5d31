"""Authorization requests with a request object: merge and verify methods."""
from .common import *
from .verify import *
from .tokens import *

CONTRACTS = [MessageVerify(), FromJwt(), ToDict()]
MARK = '__verified_request'
HINT = 'verified_id_token_hint'
CLEARED = ('__verified_id_token', '__verified_id_token_hint', MARK, HINT)


def reqclaims(r):
    """content of a request object that is mostly acceptable"""
    from pyvc.native import sel, calm
    c = {'iss': sel(r, ISS[0], ISS[1]), 'aud': ['op'], 'response_type': sel(r, ['code'], ['id_token'], ['code', 'id_token'], 'code id_token'),
         'client_id': sel(r, 'a', 'b'), 'redirect_uri': 'https://rp/cb', 'scope': sel(r, ['openid'], ['openid', 'offline_access'], 'openid', 'profile'),
         'state': sel(r, 'st', 'other'), 'nonce': sel(r, 'n', 'm'), 'prompt': sel(r, ['consent'], 'none', ['none', 'login'], 'x'),
         'display': sel(r, 'page', 'pop'), 'extra': sel(r, 'e', 'f')}
    for k in list(c):
        if k in ('prompt', 'display', 'extra', 'state') and r.random() < .6 or k == 'nonce' and r.random() < .3 \
                or not calm(r) and r.random() < .05:
            del c[k]
    for k in CLEARED + ('id_token_hint',):
        if not calm(r) and r.random() < .1:
            c[k] = 'forged'
    return c


def reqtxt(r):
    return toknat.rndtoken(r, reqclaims, algs=['RS256', 'RS256', 'ES256', 'none'])


def hinttxt(r):
    from . import p02
    return toknat.rndtoken(r, p02.idclaims, algs=['RS256', 'RS256', 'ES256', 'none'])


HINTS = {'request': reqtxt, 'id_token_hint': hinttxt, 'scope': [['openid'], ['openid', 'offline_access'], ['profile']],
         'response_type': [['code'], ['id_token'], ['code', 'id_token']], 'redirect_uri': ['https://rp/cb'],
         'client_id': ['a'], 'nonce': ['n', 'm'], 'prompt': [['consent'], ['none'], ['none', 'login'], ['login', 'consent']],
         'display': ['page', 'pop'], 'state': ['st', 'plain'], 'extra': ['plain'], 'request_uri': ['https://rp/ro'],
         MARK: ['forged'], HINT: ['forged'], '__verified_id_token': ['forged'], '__verified_id_token_hint': ['forged']}


def req_kw(h, **more):
    kj = None
    req = {}
    how = h.pick('keyjar', ['given', 'none', 'absent'])
    if how == 'given':
        kj = h.keyjar('kj', hint=ISS)
    if how != 'absent':
        req['keyjar'] = kj
    opt = {'encalg': h.str('kencalg', hint=['RSA-OAEP']), 'encenc': h.str('kencenc', hint=['A128CBC-HS256']),
           'opponent_id': h.str('kopp', hint=['a', 'https://op.example.org']), 'sender': h.str('ksender', hint=['a']),
           'alg': h.str('kalg', hint=['RS256'])}
    opt.update(more)
    return kj, h.kwargs('kw', req=req, opt=opt, others=True, exclude=('keyjar', 'txt'))


def decoded(h, tok, cls, txt, kj, kw, verify=True, sigalg=None):
    """clauses: the value is a message of the class decoded from the text with the key jar"""
    jwe = h.And(h.Not(h.is_jws(txt)), h.isjwe(txt, h.getdef(kw, 'encalg', ''), h.getdef(kw, 'encenc', '')))
    out = [('a decoded %s' % cls.__name__, h.isinst(tok, cls))]
    for c, lt in h.objs(tok):
        if lt is None:
            out.append(('a decoded %s' % cls.__name__, h.Not(c)))
            continue
        t = h.attr(lt, 'jwt')
        I = h.Imp
        out.append(('decoded from the own value', I(c, h.And(
            I(h.Not(jwe), h.eq(t, txt)), I(jwe, h.eq(t, h.decr(kj, txt)) if kj is not None else False)))))
        out.append(('holds the content of that text', I(c, h.same(h.attr(lt, '_dict'), h.fromd(cls, h.pay(t))))))
        for lab, f in jwt_clauses(h, t, kj, verify, sigalg):
            out.append((lab, I(c, f)))
    return out


def objs_content(h, tok, cls):
    """(condition, decoded content) of the verified object"""
    for c, lt in h.objs(tok):
        if lt is not None:
            yield c, h.fromd(cls, h.pay(h.attr(lt, 'jwt')))


def merged(h, pre, post, ro, treat, *markers):
    """the parameters after merging the content ro of the request object, markers aside"""
    def f(k):
        skip = h.Or(*[h.eq(k, x) for x in markers])
        inro = h.has(ro, k)
        keep = h.And(treat == 'lax', h.has(pre, k))
        return h.Or(skip, h.And(h.Iff(h.has(post, k), h.Or(inro, keep)),
                                h.Imp(inro, h.same(h.get(post, k), h.get(ro, k))),
                                h.Imp(h.And(h.Not(inro), keep), h.same(h.get(post, k), h.get(pre, k)))))
    return h.forall_anykey(f)


def outcome(h, r):
    """path label; True when accepted"""
    if not r.ok:
        h.cover('refuse ' + r.exc.__name__)
        return False
    if not h.fork(h.truthy(r.val)):
        h.cover('refuse False')
        return False
    h.cover('accept')
    return True
