"""P15: OAuth2 responses are bound to the client and issuer and carry legal error texts."""
from .common import *
from .verify import *

HINTS = {'error_description': ['fine', 'a"b', 'a\\b', '\n', '~', ' ', 'ü', ''], 'client_id': ['a', 'b'], 'iss': ['a', 'b'],
         'code': ['c'], 'state': ['s']}


def error_text(cls):
    def ob(h):
        m = h.message('m', cls, hints=HINTS)
        kw = h.kwargs('kw', others=True)
        if 'error_description' not in cls.c_param:
            # not a declared parameter of this type: taken as a text where it is given
            h.assume(h.Imp(h.has(m, 'error_description'), h.isk(h.get(m, 'error_description'), 'str', 'none')))
        pre = h.snap(m)
        r = h.call(o2.ResponseMessage.verify, m, kw_=kw)
        rules = dict(base_rules(h, pre, cls))
        rules['illegal error description'] = (bad_error_text(h, pre), (ValueError, TypeError))
        decide(h, r, rules)
        h.check('message unchanged', h.unchanged(pre, m))
    return ob


@obligation('P15', 'AuthorizationResponse.verify', need=('accept',), contracts=[MessageVerify()])
def authz(h):
    m = h.message('m', o2.AuthorizationResponse, hints=HINTS)
    kw = h.kwargs('kw', opt={'client_id': h.val('kclient', 'str', 'none', hint=['a', 'b', '']),
                             'iss': h.val('kiss', 'str', 'none', hint=['a', 'b', ''])}, others=True)
    pre = h.snap(m)
    r = h.call((m, 'verify'), kw_=kw)
    rules = dict(base_rules(h, pre, o2.AuthorizationResponse))
    rules['illegal error description'] = (bad_error_text(h, pre), (ValueError, TypeError))
    for k in ('client_id', 'iss'):
        rules['another ' + k] = (h.And(h.has(pre, k), h.has(kw, k), h.Not(h.eq(h.get(pre, k), h.get(kw, k)))), X.VerificationError)
    decide(h, r, rules)
    h.check('message unchanged', h.unchanged(pre, m))


for c in all_message_classes():
    if issubclass(c, o2.ResponseMessage):
        obligation('P15', 'ResponseMessage.verify[%s]' % cname(c), need=('accept',), contracts=[MessageVerify()])(error_text(c))
prove_base('P15', o2.AuthorizationResponse)
