"""P03: signed content is loaded only after its signature was verified."""
from .common import *
from .tokens import *

ISS = ['a', 'https://op.example.org']


def claims(r):
    return {'iss': r.choice(ISS), 'sub': 's', 'x': r.choice([1, 'y', None]), 'aud': ['b']}


def kwspec(h):
    return h.kwargs('kw', opt={'verify': h.val('kverify', hint=[True, False]),
                               'sigalg': h.val('ksigalg', 'str', 'none', hint=['RS256', 'ES256', 'none', '']),
                               'encalg': h.str('kencalg', hint=['RSA-OAEP', 'RSA1_5']),
                               'encenc': h.str('kencenc', hint=['A128CBC-HS256']),
                               'sender': h.val('ksender', 'str', 'none', hint=ISS)},
                    others=True, exclude=('keyjar', 'txt'))


def body(cls):
    def ob(h):
        m = h.message('m', cls, welltyped=False, attrs={'jwt': None, 'jws_header': None, 'jwe_header': None})
        txt = h.str('txt', hint=lambda r: toknat.rndtoken(r, claims))
        kj = None
        if h.pick('keyjar', ['given', 'none']) == 'given':
            kj = h.keyjar('kj', hint=ISS)
        kw = kwspec(h)
        pre = h.snap(m)
        r = h.call((m, 'from_jwt'), txt, kj, kw_=kw)
        verify = h.getdef(kw, 'verify', True)
        sigalg = h.getdef(kw, 'sigalg', None)
        jwe = h.isjwe(txt, h.getdef(kw, 'encalg', ''), h.getdef(kw, 'encenc', ''))
        t = h.attr(m, 'jwt')
        hdr = h.attr(m, 'jws_header')
        if h.sym:
            loaded = '#loaded' in m.attrs
        else:
            loaded = not h.unchanged(pre, m)
        if r.ok:
            h.cover('loaded')
            h.check('returns the message itself', r.val is m)
            h.check('something was loaded', h.sym is False or loaded)
        if loaded:
            # after a success, or after a failure while the verified content was being stored
            if t is None:
                h.check('the loaded text is recorded', False)
                return
            h.check('the text is the given one, or what it decrypts to with the receiver keys',
                    h.And(h.Imp(h.Not(jwe), h.eq(t, txt)), h.Imp(jwe, h.eq(t, h.decr(kj, txt)) if kj is not None else False)))
            if h.sym:
                h.check('what is loaded is the payload of that text', h.ident(m.attrs['#loaded'], h.pay(t)))
            for lab, f in jwt_clauses(h, t, kj, verify, sigalg):
                h.check(lab, f)
            if hdr is None:
                h.check('no header recorded => text without signature header', h.Not(h.is_jws(t)))
            else:
                h.check('the recorded header is that of the loaded text',
                        h.And(h.is_jws(t), h.same(hdr, h.hdr(t))))
        else:
            h.check('nothing loaded => parameters unchanged', h.unchanged(pre, m))
        if not r.ok and r.exc is not AnyExc and not loaded:
            h.cover('refuse ' + r.exc.__name__)
            nokey = h.And(h.Not(h.kjtrue(kj)), h.is_jws(txt), h.Not(jwe), h.isk(h.jwspay(txt), 'dict'),
                          h.Not(h.eq(h.get(h.hdr(txt), 'alg'), 'none')), h.truthy(verify),
                          *[h.Not(h.has(kw, k)) for k in ('sigalg', 'encalg', 'encenc')])
            h.check('no keys at all => missing-key error', h.Imp(nokey, r.exc is X.MissingSigningKey))
            if r.exc is X.MissingSigningKey:
                h.check('missing-key error => verification was due',
                        h.Imp(h.Not(jwe), h.And(h.is_jws(txt), h.Not(h.eq(h.get(h.hdr(txt), 'alg'), 'none')), h.truthy(verify))))
    return ob


obligation('P03', 'Message.from_jwt', need=('loaded',), contracts=[FromDict()])(body(Message))
for c in all_message_classes():
    for n in ('from_jwt', 'from_dict'):
        if c is not Message and n in c.__dict__:
            obligation('P03', '%s.from_jwt' % cname(c), need=('loaded',), contracts=[FromDict()])(body(c))
            break
