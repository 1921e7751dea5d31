"""P09: a request object is merged only after verification and under the merge rules."""
from .common import *
from .verify import *
from .tokens import *
from .authreq import *

NEED = ('accept', 'accept with request object')


def body(cls, roc, treat, markers, need_uri=False):
    def ob(h):
        m = h.message('m', cls, hints=HINTS)
        kj, kw = req_kw(h)
        pre = h.snap(m)
        r = h.call((m, 'verify'), kw_=kw)
        if not outcome(h, r):
            return
        if not h.fork(h.And(h.has(pre, 'request'), h.Not(h.isnone(h.get(pre, 'request'))))):
            return
        h.cover('accept with request object')
        txt = h.get(pre, 'request')
        h.check('the request object is verified and kept', h.has(m, MARK))
        tok = h.get(m, MARK)
        for lab, f in decoded(h, tok, roc, txt, kj, kw):
            h.check(lab, f)
        for c, ro in objs_content(h, tok, roc):
            h.check('merged (%s)' % treat, h.Imp(c, merged(h, pre, m, ro, treat, *markers)))
    return ob


for c in all_message_classes():
    for base, roc, treat, marks in ((o2.JWTSecuredAuthorizationRequest, o2.AuthorizationRequest, 'strict', (MARK,)),
                                    (o2.PushedAuthorizationRequest, o2.AuthorizationRequest, 'lax', (MARK,)),
                                    (oi.AuthorizationRequest, oi.OpenIDRequest, 'strict', CLEARED)):
        if issubclass(c, base):
            obligation('P09', '%s.verify' % cname(c), need=NEED, contracts=CONTRACTS)(body(c, roc, treat, marks))
            break


@obligation('P09', 'oauth2.AuthorizationRequest.merge', need=('ok',))
def merge(h):
    """the merge rules themselves, any whitelist, request object a message or a mapping"""
    m = h.message('m', o2.AuthorizationRequest, hints=HINTS)
    ro = h.message('ro', h.pick('class', [o2.AuthorizationRequest, oi.OpenIDRequest]), hints=HINTS) if h.pick('ro', ['msg', 'dict']) == 'msg' \
        else h.dict('rod', hint=[{'state': 'x'}, {'scope': ['openid'], 'foo': 'bar'}, {}])
    treat = h.pick('treat', ['strict', 'lax', 'whitelist', 'default'])
    wl = h.strlist('wl', hint=[['state'], ['scope', 'foo'], []])
    args = {} if treat == 'default' else {'treatement': treat}
    if treat == 'whitelist':
        h.assume(h.truthy(wl))
        args['whitelist'] = wl
    pre, prero = h.snap(m), h.snap(ro)
    r = h.call((m, 'merge'), ro, **args)
    h.check('never refused', r.ok)
    if not r.ok:
        return
    h.cover('ok')

    def f(k):
        inro = h.has(prero, k)
        keep = {'lax': h.has(pre, k), 'whitelist': h.And(h.has(pre, k), h.mem(k, wl))}.get(treat, False)
        return h.And(h.Iff(h.has(m, k), h.Or(inro, keep)),
                     h.Imp(inro, h.same(h.get(m, k), h.get(prero, k))),
                     h.Imp(h.And(h.Not(inro), keep), h.same(h.get(m, k), h.get(pre, k))))
    h.check('merged as the treatment says', h.forall_anykey(f))
    h.check('the request object is unchanged', h.unchanged(prero, ro))
