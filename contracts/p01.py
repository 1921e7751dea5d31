"""P01: ID Token claims are accepted only for this client, issuer, time and nonce."""
from .common import *
from .verify import *


@obligation('P01', 'IdToken.verify', need=('accept',), contracts=[MessageVerify()])
def p01(h):
    m = h.message('m', oi.IdToken, hints=IDT_HINTS)
    kw = idtoken_kw(h)
    pre = h.snap(m)
    r = h.call((m, 'verify'), kw_=kw)
    IdTokenVerify.check(h, pre, m, kw, r)


@obligation('P01', 'Message.verify[IdToken]', need=('accept',))
def p01base(h):
    MessageVerify().prove(h, h.message('m', oi.IdToken, welltyped=False))
