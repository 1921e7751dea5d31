"""Native tokens, keys and key jars for replay and search (test keys only)."""
import json
import os

ALGS = ['RS256', 'ES256', 'HS256', 'ES384', 'ES512', 'PS256', 'HS512', 'none']
_K = {}


def keys(which):
    if which not in _K:
        from cryptojwt.jwk.jwk import key_from_jwk_dict
        d = json.load(open(os.path.join(os.path.dirname(__file__), 'keys.json')))
        _K[which] = [key_from_jwk_dict(k) for k in d[which]]
    return _K[which]


def sign(claims, alg='RS256', which='good', kid=True, tamper=False):
    """compact JWS of the claims (a mapping, or a text taken as it is)"""
    from cryptojwt.jws.jws import JWS
    msg = claims if isinstance(claims, str) else json.dumps(claims)
    if alg == 'none':
        return JWS(msg, alg='none').sign_compact([])
    from cryptojwt.jws.utils import alg2keytype
    kt = alg2keytype(alg)
    crv = {'ES256': 'P-256', 'ES384': 'P-384', 'ES512': 'P-521'}.get(alg)
    ks = [k for k in keys(which) if k.kty.lower() == kt.lower() and (crv is None or k.crv == crv)]
    import copy
    k = copy.copy(ks[0])
    if not kid:
        k.kid = ''
    t = JWS(msg, alg=alg).sign_compact([k])
    if tamper:
        h, b, s = t.split('.')
        c = json.loads(msg)
        c['tampered'] = 1
        from cryptojwt.utils import b64e
        t = '.'.join([h, b64e(json.dumps(c).encode()).decode(), s])
    return t


def encrypt(txt, which='enc'):
    from cryptojwt.jwe.jwe import JWE
    return JWE(txt, alg='RSA-OAEP', enc='A128CBC-HS256').encrypt(keys(which))


def rndtoken(r, claims, algs=None):
    """random token; claims: function r -> dict"""
    from .native import calm
    c = claims(r)
    alg = r.choice(algs or ALGS)
    if calm(r):
        return sign(c, alg)
    x = r.random()
    if x < .06:
        return json.dumps(c)
    t = sign(c, alg, 'good' if r.random() < .8 else 'bad', r.random() < .9, r.random() < .08)
    if r.random() < .15:
        t = encrypt(t, 'enc' if r.random() < .8 else 'otherenc')
    if r.random() < .03:
        t = t[:-4]
    return t


def mkkeyjar(issuers):
    from cryptojwt.key_jar import KeyJar
    d = json.load(open(os.path.join(os.path.dirname(__file__), 'keys.json')))
    kj = KeyJar()
    kj.import_jwks({'keys': d['enc']}, '')
    for i in issuers:
        if i:
            kj.import_jwks({'keys': d['good']}, i)
    return kj


# ------------------------------------------------------------------ spec operations, native
def is_jws(txt):
    from cryptojwt.jws.jws import factory
    try:
        f = factory(txt)
        return bool(f) and f.jwt is not None
    except Exception:
        return False


def hdr(txt):
    from cryptojwt.jws.jws import factory
    return factory(txt).jwt.headers if is_jws(txt) else {}


def pay(txt):
    from cryptojwt.jws.jws import factory
    try:
        return factory(txt).jwt.payload() if is_jws(txt) else json.loads(txt)
    except Exception:
        return None


def verified(kj, txt):
    from cryptojwt.jws.jws import factory
    if kj is None or not is_jws(txt):
        return False
    f = factory(txt)
    try:
        ks = list(kj.get_jwt_verify_keys(f.jwt))
        # keys for tokens without kid or for an issuer given by the caller
        ks += [k for i in kj.owners() for k in kj.get_signing_key(issuer_id=i)] if not ks else []
        f.verify_compact(txt, ks)
        return True
    except Exception:
        return False


def decrypted(kj, txt):
    from cryptojwt.jwe.jwe import factory
    try:
        f = factory(txt)
        return f.decrypt(txt, kj.get_decrypt_key(owner='')).decode() if f else txt
    except Exception:
        return txt


def fromd(cls, d):
    m = cls()
    try:
        return dict(m.from_dict(d)._dict)
    except Exception:
        return {}
