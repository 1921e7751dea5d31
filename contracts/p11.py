"""P11: logout tokens and session-end requests are accepted only when well-formed."""
from .common import *
from .verify import *
from .tokens import *
from . import p02

ACC = ('accept',)
CONTRACTS = [MessageVerify(), FromJwt(), ToDict()]
EVENT = "http://schemas.openid.net/event/backchannel-logout"


def logout_rules(h, m, kw, hdr):
    A, N, O = h.And, h.Not, h.Or
    ev = h.get(m, 'events')
    inner = h.get(ev, EVENT)
    now = h.now()
    allowed = h.getdef(kw, 'allowed_sign_alg', None)
    return {
        'has a nonce': (h.has(m, 'nonce'), X.MessageException),
        'events are not exactly the logout event with an empty object':
            (N(A(h.isk(ev, 'dict', 'msg'), h.eq(h.len(ev), 1), h.has(ev, EVENT), h.isk(inner, 'dict'),
                 h.eq(h.len(inner), 0))), (ValueError, AttributeError, TypeError)),
        'neither subject nor session': (A(N(h.has(m, 'sub')), N(h.has(m, 'sid'))), ValueError),
        'not the expected audience': (A(h.has(kw, 'aud'), N(h.mem(h.get(kw, 'aud'), h.get(m, 'aud')))), X.NotForMe),
        'not the expected issuer': (A(h.has(kw, 'iss'), N(h.eq(h.get(kw, 'iss'), h.get(m, 'iss')))), X.NotForMe),
        'issued in the future': (h.lt(h.plus(now, h.getdef(kw, 'skew', 0)), h.get(m, 'iat')), ValueError),
        'not signed with the allowed algorithm':
            (A(h.truthy(allowed), N(A(h.isk(hdr, 'dict') if hdr is not None else False,
                                      h.has(hdr, 'alg'), h.eq(h.get(hdr, 'alg'), allowed)))) if hdr is not None else h.truthy(allowed),
             (ses.UnsupportedAlgorithm, TypeError, KeyError)),
    }


def lclaims(r):
    from pyvc.native import sel, calm
    c = {'iss': sel(r, ISS[0], ISS[1]), 'aud': sel(r, ['a'], ['b'], ['b', 'a']), 'iat': sel(r, NOWH - 5, NOWH + 1, NOWH + 60),
         'jti': 'j', 'events': sel(r, {EVENT: {}}, {EVENT: {}, 'x': {}}, {EVENT: {'a': 1}}, {}, {'x': {}}, {EVENT: None}, {EVENT: 0}),
         'sub': 's', 'sid': 'x'}
    for k in ('sub', 'sid'):
        if r.random() < .4:
            del c[k]
    if not calm(r) and r.random() < .2:
        c['nonce'] = 'n'
    return c


def ltxt(r):
    return toknat.rndtoken(r, lclaims, algs=['RS256', 'RS256', 'ES256', 'none'])


def lkw(h):
    return h.kwargs('kw', opt={'iss': h.str('kiss', hint=ISS), 'aud': h.str('kaud', hint=['a', 'b']),
                               'skew': h.int('kskew', hint=[0, 1, 60]),
                               'allowed_sign_alg': h.val('kallowed', 'str', 'none', hint=['RS256', 'RS256', 'ES256', 'none', ''])},
                    others=True)


class LogoutVerify(Contract):
    """LogoutToken.verify: the rules; nothing changes.  Used where a logout token is embedded."""
    name = 'LogoutToken.verify'

    def fn(self):
        return ses.LogoutToken.verify

    def applies(self, I_, args, kw):
        return len(args) == 1 and isinstance(args[0], HObj) and args[0].attrs['_dict'].welltyped is ses.LogoutToken

    def pre(self, I_, h, args, kw):
        st = St()
        st.m, st.kw = args[0], kw
        hdr = h.attr(st.m, 'jws_header')
        st.hdr = hdr
        if not (hdr is None or isinstance(hdr, (HDict, SV))):
            I_.unsup('header %r' % (hdr,))
        return st

    def outcomes(self, I_, h, st):
        return ['ok', AnyExc]

    def result(self, I_, h, st):
        return True

    def clauses(self, h, st, out):
        if out != 'ok':
            return []
        rules = logout_rules(h, st.m, st.kw, st.hdr)
        rules.update(base_rules(h, st.m, ses.LogoutToken))
        return [('not: ' + n, h.Not(v)) for n, (v, _) in rules.items()]


@obligation('P11', 'LogoutToken.verify', need=ACC, contracts=CONTRACTS)
def logout_token(h):
    has_hdr = h.pick('header', [True, False])
    hdr = h.dict('hdr', hint=[{'alg': 'RS256'}, {'alg': 'none'}, {'alg': 'ES256'}]) if has_hdr else None
    m = h.message('m', ses.LogoutToken, attrs={'jws_header': hdr},
                  hints={'events': [{EVENT: {}}, {EVENT: {'a': 1}}, {}, {'x': {}}, {EVENT: {}, 'y': {}}],
                         'iat': [NOWH, NOWH + 1, NOWH - 1, NOWH + 60], 'aud': [['a'], ['b', 'a']], 'iss': ISS, 'nonce': ['n'],
                         'sub': ['s'], 'sid': ['x'], 'jti': ['j']})
    kw = lkw(h)
    pre = h.snap(m)
    r = h.call((m, 'verify'), kw_=kw)
    rules = logout_rules(h, pre, kw, hdr)
    rules.update(base_rules(h, pre, ses.LogoutToken))
    decide(h, r, rules)
    h.check('claims unchanged', h.unchanged(pre, m))


def jwt_kw(h, **more):
    kj = None
    req = {}
    how = h.pick('keyjar', ['given', 'none', 'absent'])
    if how == 'given':
        kj = h.keyjar('kj', hint=ISS)
    if how != 'absent':
        req['keyjar'] = kj
    opt = {'verify': h.val('kverify', 'bool', 'none', 'int', hint=[True, True, False]),
           'sigalg': h.str('ksigalg', hint=['RS256', 'ES256', 'none']),
           'encalg': h.str('kencalg', hint=['RSA-OAEP']), 'encenc': h.str('kencenc', hint=['A128CBC-HS256'])}
    opt.update(more)
    return kj, h.kwargs('kw', req=req, opt=opt, others=True, exclude=('keyjar', 'txt'))


@obligation('P11', 'BackChannelLogoutRequest.verify', need=ACC, contracts=[LogoutVerify()] + CONTRACTS)
def bclr(h):
    m = h.message('m', ses.BackChannelLogoutRequest, hints={'logout_token': ltxt, '__verified_logout_token': ['x']})
    kj, kw = jwt_kw(h, iss=h.str('kiss', hint=ISS), aud=h.str('kaud', hint=['a', 'b']), skew=h.int('kskew', hint=[0, 1, 60]),
                    allowed_sign_alg=h.val('kallowed', 'str', 'none', hint=['RS256', 'RS256', 'ES256', 'none', '']))
    pre = h.snap(m)
    r = h.call((m, 'verify'), kw_=kw)
    if not r.ok:
        h.cover('refuse ' + r.exc.__name__)
        return
    if not h.fork(h.truthy(r.val)):
        h.cover('refuse False')
        return
    h.cover('accept')
    I = h.Imp
    txt = h.get(pre, 'logout_token')
    h.check('a token is there', h.And(h.has(pre, 'logout_token'), h.isk(txt, 'str')))
    tok = h.get(m, '__verified_logout_token')
    h.check('the verified token is there', h.And(h.has(m, '__verified_logout_token'), h.isinst(tok, ses.LogoutToken)))
    jwe = h.isjwe(txt, h.getdef(kw, 'encalg', ''), h.getdef(kw, 'encenc', ''))
    for c, lt in h.objs(tok):
        if lt is None:
            h.check('the verified token is a logout token', h.Not(c))
            continue
        t = h.attr(lt, 'jwt')
        h.check('it was decoded from the request', I(c, h.And(
            h.Imp(h.Not(jwe), h.eq(t, txt)), h.Imp(jwe, h.eq(t, h.decr(kj, txt)) if kj is not None else False))))
        h.check('it is a signed token', I(c, h.And(h.is_jws(t), h.Not(h.eq(h.get(h.hdr(t), 'alg'), 'none')))))
        h.check('its claims are those of the token', I(c, h.same(h.attr(lt, '_dict'), h.fromd(ses.LogoutToken, h.pay(t)))))
        for lab, f in jwt_clauses(h, t, kj, h.getdef(kw, 'verify', True), h.getdef(kw, 'sigalg', None)):
            h.check(lab, I(c, f))
        rules = logout_rules(h, lt, kw, h.hdr(t))
        rules.update(base_rules(h, lt, ses.LogoutToken))
        for n, (v, _) in rules.items():
            h.check('not: ' + n, I(c, h.Not(v)))


@obligation('P11', 'EndSessionRequest.verify', need=ACC, contracts=p02.CALLER)
def end_session(h):
    m = h.message('m', ses.EndSessionRequest, hints={'id_token_hint': p02.idtxt, 'post_logout_redirect_uri': ['https://rp/x']})
    kj, kw = token_kw(h)
    pre = h.snap(m)
    r = h.call((m, 'verify'), kw_=kw)
    if not r.ok:
        h.cover('refuse ' + r.exc.__name__)
        return
    if not h.fork(h.truthy(r.val)):
        h.cover('refuse False')
        return
    h.cover('accept')
    if not h.fork(h.has(pre, 'post_logout_redirect_uri')):
        return
    h.check('redirect target => hint given', h.has(pre, 'id_token_hint'))
    for lab, f in token_clauses(h, pre, m, kj, kw, 'id_token_hint', False):
        h.check(lab, f)
