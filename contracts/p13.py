"""P13: client registration requests and responses."""
from .common import *
from .verify import *

ENC = ('request_object_encryption', 'id_token_encrypted_response', 'userinfo_encrypted_response')
HINTS = {'initiate_login_uri': ['https://rp.example.org', 'http://rp', 'https', 'HTTPS://x', ' https://x', None],
         'token_endpoint_auth_signing_alg': ['none', 'RS256', None], 'redirect_uris': [['https://rp.example.org/cb']]}
for p_ in ENC:
    HINTS[p_ + '_alg'] = ['RSA-OAEP', 'A128KW']
    HINTS[p_ + '_enc'] = ['A128GCM', 'A128CBC-HS256']


@obligation('P13', 'RegistrationRequest.verify', need=('accept',), contracts=[MessageVerify()])
def reg(h):
    m = h.message('m', oi.RegistrationRequest, hints=HINTS)
    kw = h.kwargs('kw', others=True)
    pre = h.snap(m)
    has, get = h.has, h.get
    r = h.call((m, 'verify'), kw_=kw)
    uri = get(pre, 'initiate_login_uri')
    rules = dict(base_rules(h, pre, oi.RegistrationRequest))
    rules['login initiation address without https'] = (
        h.And(has(pre, 'initiate_login_uri'), h.isk(uri, 'str'), h.Not(h.startswith(uri, 'https:'))), ValueError)
    rules['login initiation address is no text'] = (
        h.And(has(pre, 'initiate_login_uri'), h.Not(h.isk(uri, 'str'))), AttributeError)
    for p in ENC:
        rules['%s: method without algorithm' % p] = (
            h.And(has(pre, p + '_enc'), h.Not(has(pre, p + '_alg'))), X.MissingRequiredAttribute)
    rules['client authentication signed with none'] = (
        h.And(has(pre, 'token_endpoint_auth_signing_alg'), h.eq(get(pre, 'token_endpoint_auth_signing_alg'), 'none')), ValueError)
    decide(h, r, rules)
    encs = [p + '_enc' for p in ENC]
    h.check('only encryption methods may be filled in', h.unchanged(pre, m, *encs))
    for p in ENC:
        e, a = p + '_enc', p + '_alg'
        h.check('%s: a given method is kept' % p, h.Imp(has(pre, e), h.And(has(m, e), h.ident(get(m, e), get(pre, e)))))
        h.check('%s: only the standard method is filled in' % p,
                h.Imp(h.And(h.Not(has(pre, e)), has(m, e)), h.And(has(pre, a), h.ident(get(m, e), 'A128CBC-HS256'))))
        if r.ok:
            h.check('%s: completed' % p, h.Imp(has(pre, a), has(m, e)))
            h.check('%s: no method without algorithm afterwards' % p, h.Imp(has(m, e), has(m, a)))


@obligation('P13', 'RegistrationResponse.verify', need=('accept',), contracts=[MessageVerify()])
def resp(h):
    m = h.message('m', oi.RegistrationResponse, hints=HINTS)
    kw = h.kwargs('kw', others=True)
    pre = h.snap(m)
    r = h.call((m, 'verify'), kw_=kw)
    rules = dict(base_rules(h, pre, oi.RegistrationResponse))
    rules['illegal error description'] = (bad_error_text(h, pre), (ValueError, TypeError))
    rules['address without token or token without address'] = (
        h.Not(h.Iff(h.has(pre, 'registration_client_uri'), h.has(pre, 'registration_access_token'))), X.VerificationError)
    decide(h, r, rules)
    h.check('message unchanged', h.unchanged(pre, m))


prove_base('P13', oi.RegistrationRequest)
prove_base('P13', oi.RegistrationResponse)
