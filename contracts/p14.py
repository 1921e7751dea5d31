"""P14: provider metadata is accepted only if it meets the discovery rules."""
from .common import *
from .verify import *

SCOPECHARS = sorted({0x21} | set(range(0x23, 0x5c)) | set(range(0x5d, 0x7f)))       # RFC 6749
HINTS = {'issuer': ['https://op.example.org', 'http://op.example.org', 'https://op.example.org?x=1', 'https://a#f'],
         'scopes_supported': [['openid'], ['openid', 'a"b'], ['email'], ['openid', 'a b'], ['openid', 'x!']],
         'response_types_supported': [['code'], ['id_token'], ['id_token', 'code token'], ['token']],
         'id_token_signing_alg_values_supported': [['RS256'], ['ES256'], ['ES256', 'RS256']],
         'subject_types_supported': [['public']], 'authorization_endpoint': ['https://op.example.org/a'],
         'jwks_uri': ['https://op.example.org/jwks'], 'error_description': ['ok']}


@obligation('P14', 'ProviderConfigurationResponse.verify', need=('accept',), contracts=[MessageVerify()])
def pcr(h):
    m = h.message('m', oi.ProviderConfigurationResponse, hints=HINTS)
    kw = h.kwargs('kw', opt={'allow_http': h.val('kallow', 'bool', 'none', 'int', 'str')}, others=True)
    pre = h.snap(m)
    has, get, A, N = h.has, h.get, h.And, h.Not
    r = h.call((m, 'verify'), kw_=kw)
    iss = get(pre, 'issuer')
    sc = get(pre, 'scopes_supported')
    rules = dict(base_rules(h, pre, oi.ProviderConfigurationResponse))
    missing = rules['a required parameter is missing'][0]
    rules['illegal error description'] = (bad_error_text(h, pre), (ValueError, TypeError))
    rules['openid is no supported scope'] = (A(has(pre, 'scopes_supported'), N(h.mem('openid', sc))), X.MissingRequiredValue)
    rules['a scope has an illegal character'] = (
        A(has(pre, 'scopes_supported'), N(h.forall_elems(sc, lambda e: h.charset(e, SCOPECHARS)))), X.NotAllowedValue)
    rules['issuer is no address'] = (N(h.urlok(iss)), ValueError)
    rules['issuer without https'] = (A(h.urlok(iss), N(has(kw, 'allow_http')), N(h.eq(h.url(iss, 'scheme'), 'https'))), X.SchemeError)
    rules['issuer with query'] = (A(h.urlok(iss), N(h.eq(h.url(iss, 'query'), ''))), ValueError)
    rules['issuer with fragment'] = (A(h.urlok(iss), N(h.eq(h.url(iss, 'fragment'), ''))), ValueError)
    rules['RS256 is not supported'] = (N(h.mem('RS256', get(pre, 'id_token_signing_alg_values_supported'))), ValueError)
    rules['code without token endpoint'] = (
        A(N(has(pre, 'token_endpoint')),
          h.exists_elems(get(pre, 'response_types_supported'), lambda e: h.contains(e, 'code'))), X.MissingRequiredAttribute)
    decide(h, r, rules)
    h.check('message unchanged', h.unchanged(pre, m))


prove_base('P14', oi.ProviderConfigurationResponse)
