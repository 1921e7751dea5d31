"""Trusted models of the JWT library (cryptojwt): JWS/JWE recognition, decryption, signature
verification, key jars, hash claims; json.loads.  The properties are about what the
repository's code does with the answers of that library, so each answer is an uninterpreted
function of the token text (and keys), constrained only by what the library guarantees."""
import json
import z3

from cryptojwt.jwe.jwe import factory as _jwe_factory
from cryptojwt.jws.jws import factory as _jws_factory
from cryptojwt.jws.jws import SIGNER_ALGS
from cryptojwt.jws.exception import NoSuitableSigningKeys
from cryptojwt.jws.utils import left_hash as _left_hash
from cryptojwt.utils import as_unicode as _as_unicode
import cryptojwt.jwe.jwe
import cryptojwt.jws.jws
from cryptojwt.key_jar import KeyJar

from .vals import *
from .ctx import Unsupported
from .ctx import lstr
from .heap import *
from .models import model, extm, EXTM, REALIZERS, strz, kwv
from .interp import AnyExc
from . import ctx as _ctx

JWSIS = z3.Function('jws_is', S, B)          # the library takes the text for a JWS
JWSJ = z3.Function('jws_json', S, B)         # ... in JSON serialisation (no compact header)
HDR = z3.Function('jws_hdr', S, I)           # its header (mapping id)
PAY = z3.Function('jws_pay', S, Val)         # its payload
JWEIS = z3.Function('jwe_is', S, Val, Val, B)
JHDR = z3.Function('jwe_hdr', S, I)
DECR = z3.Function('jwe_dec', S, I, S)       # text obtained by decrypting with a key list
DKEYS = z3.Function('kj_dkeys', I, Val, I)
SIGOK = z3.Function('sigok', S, Val, B)      # the signature verifies with the key
KEYOF = z3.Function('keyof', I, S, Val, B)   # the key jar returned the key for the token
KJT = z3.Function('kj_true', I, B)
KJHAS = z3.Function('kj_has', I, Val, B)
JV = z3.Function('json_val', S, Val)
JOK = z3.Function('json_ok', S, B)
LHASH = z3.Function('lhash', S, S, S)           # (function name, text)
LHFN = ('HS256', 'HS384', 'HS512')
FROMD = z3.Function('fromd', I, Val, I)      # (class, mapping) -> parameters of the loaded message

_ctx._KEYF.add('sigok')

ASSUME = 'cryptojwt: '


def hdr_facts(I_, t):
    c = I_.c
    h = HDR(t)
    a = dget(h, VStr('alg'))
    c.assume(z3.Implies(z3.And(JWSIS(t), z3.Not(JWSJ(t))),
                        z3.And(dhas(h, VStr('alg')), z3.Or(*[a == VStr(x) for x in SIGNER_ALGS]))))


def none_facts(I_, h, alg, enc):
    """the text None is no token and no JSON"""
    t = z3.StringVal('None')
    I_.c.assume(z3.And(z3.Not(JWSIS(t)), z3.Not(JOK(t))))
    I_.c.assume(Not(h.isjwe('None', alg, enc)))


def text(I_, v):
    """S term of a str/bytes value, or None"""
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, bytes):
        return z3.StringVal(v.decode('utf-8'))
    if isinstance(v, SV):
        for k in ('Str_', 'Byt_'):
            if con_of(v.t) == k or con_of(v.t) is None and I_.c.branch(is_kind(v.t, k)):
                return acc(k, v.t)
    return None


def anyexc(I_, p=None):
    """the call may fail in a way that is not specified further"""
    if I_.c.choose(2):
        I_.throw(AnyExc)


def argv(I_, a, kw, i, name, dflt):
    if len(a) > i:
        return a[i]
    d = kw
    h = I_.dhasf(d, name)
    if h is False:
        return dflt
    if h is True:
        return I_.dgetv(d, name)
    v = I_.dgetv_soft(d, name)
    if I_.termable(v):
        return I_.merge_vals([(h, v), (True, dflt)])
    raise Unsupported('conditional argument %s' % name)


@model(_jws_factory)
def m_jws(I_, a, kw):
    I_.assumed.add(ASSUME + 'jws.factory recognises a compact JWS by a header with a known alg; it raises or returns None otherwise')
    t = text(I_, a[0])
    anyexc(I_)
    if t is None:
        return None
    alg = argv(I_, a, kw, 1, 'alg', '')
    if not I_.c.branch(JWSIS(t)):
        return None
    hdr_facts(I_, t)
    return Ext('jws', t=t, alg=alg, __cls__=cryptojwt.jws.jws.JWS)


@extm('jws', '__bool__')
def jws_bool(I_, o):
    return True


@extm('jws', '.jwt')
def jws_jwt(I_, o):
    t = o.f['t']
    if I_.c.branch(JWSJ(t)):
        return None
    return Ext('jwt', t=t)


@extm('jwt', '__bool__')
def jwt_bool(I_, o):
    return True


@extm('jwt', '.headers')
def jwt_headers(I_, o):
    return HDict(base=HDR(o.f['t']), frozen=True)


@extm('jwt', 'payload')
def jwt_payload(I_, o, a, kw):
    anyexc(I_)
    p = PAY(o.f['t'])
    I_.c.assume(z3.Not(z3.Or(Val.is_Obj_(p), Val.is_Byt_(p), Val.is_Msg_(p))))
    return I_.val(p)


def key_in(I_, keys, f):
    """some key in the list satisfies f"""
    out = []
    for it in I_.iterate(keys):
        if isinstance(it, Seq):
            vs, mem, el = I_.generic(it)
            out.append(z3.Exists(vs, z3.And(zb(mem), f(I_.term(el)))))
        else:
            out.append(And(it[0], f(I_.term(it[1]))))
    return Or(*out)


@extm('jws', 'verify_compact', 'verify_compact_verbose')
def jws_verify(I_, o, a, kw):
    I_.assumed.add(ASSUME + 'verify_compact succeeds only for a signature that verifies with one of the given keys, an '
                   'algorithm other than none and the algorithm given to the factory')
    tok = argv(I_, a, kw, 0, 'jws', None)
    keys = argv(I_, a, kw, 1, 'keys', None)
    t = text(I_, tok) if tok is not None else o.f['t']
    if t is None:
        I_.throw(AnyExc)
    k = I_.c.choose(3)
    if k == 1:
        I_.throw(NoSuitableSigningKeys)
    if k == 2:
        I_.throw(AnyExc)
    for n in ('allow_none', 'sigalg'):
        if I_.dhasf(kw, n) is not False or len(a) > 2:
            raise Unsupported('verify_compact option ' + n)
    if keys is None:
        I_.throw(NoSuitableSigningKeys)
    hdr_facts(I_, t)
    h = dget(HDR(t), VStr('alg'))
    I_.c.assume(h != VStr('none'))
    I_.c.assume(z3.Not(JWSJ(t)))
    alg = o.f['alg']
    if alg is not None and alg != '':
        at = I_.term(alg)
        I_.c.assume(z3.Or(z3.Not(zb(I_.truth(alg))), at == h, z3.And(Val.is_List_(at), lhas(acc('List_', at), h))))
    I_.c.assume(zb(key_in(I_, keys, lambda x: SIGOK(t, x))))
    if not I_.c.feasible():
        I_.throw(NoSuitableSigningKeys)
    p = PAY(t)
    I_.c.assume(z3.Not(z3.Or(Val.is_Obj_(p), Val.is_Byt_(p), Val.is_Msg_(p))))
    return I_.val(p)


@model(_jwe_factory)
def m_jwe(I_, a, kw):
    I_.assumed.add(ASSUME + 'jwe.factory returns a decryptor or None or raises; decrypt returns the decrypted text or raises')
    t = text(I_, a[0])
    anyexc(I_)
    if t is None:
        I_.throw(AnyExc)
    alg = argv(I_, a, kw, 1, 'alg', '')
    enc = argv(I_, a, kw, 2, 'enc', '')
    if not I_.c.branch(JWEIS(t, I_.term(alg), I_.term(enc))):
        return None
    return Ext('jwe', t=t, __cls__=cryptojwt.jwe.jwe.JWE, jwt=Ext('jwejwt', headers=HDict(base=JHDR(t), frozen=True)))


@extm('jwe', '__bool__')
def jwe_bool(I_, o):
    return True


@extm('jwe', '__str__')
def jwe_str(I_, o):
    return 'JWE'


@extm('jwe', 'decrypt')
def jwe_decrypt(I_, o, a, kw):
    tok = argv(I_, a, kw, 0, 'token', None)
    keys = argv(I_, a, kw, 1, 'keys', None)
    t = text(I_, tok) if tok is not None else o.f['t']
    anyexc(I_)
    if not (isinstance(keys, SV) and con_of(keys.t) == 'List_'):
        raise Unsupported('decryption with assembled keys')
    return SV(Val.Byt_(DECR(t, keys.t.arg(0))))


@model(_as_unicode)
def m_as_unicode(I_, a, kw):
    v = a[0]
    if isinstance(v, bytes):
        return v.decode('utf-8')
    if isinstance(v, SV):
        if con_of(v.t) == 'Byt_':
            return SV(Val.Str_(v.t.arg(0)))
        if con_of(v.t) is None and not I_.c.entails(z3.Not(Val.is_Byt_(v.t))):
            if I_.c.branch(Val.is_Byt_(v.t)):
                return SV(Val.Str_(Val.y(v.t)))
    return v


# ------------------------------------------------------------------ key jar
def new_keyjar(I_, name):
    return Ext('keyjar', id=I_.c.fresh(name, I), __cls__=KeyJar)


@extm('keyjar', '__bool__')
def kj_bool(I_, o):
    return KJT(o.f['id'])


@extm('keyjar', '__str__')
def kj_str(I_, o):
    return SV(Val.Str_(I_.c.fresh('kjstr', S)))


@extm('keyjar', '__contains__')
def kj_contains(I_, o, x):
    anyexc(I_)
    return mkbool(KJHAS(o.f['id'], I_.term(x)))


@extm('keyjar', 'get_decrypt_key')
def kj_dkey(I_, o, a, kw):
    own = argv(I_, a, kw, 1, 'owner', '')
    anyexc(I_)
    return SV(Val.List_(DKEYS(o.f['id'], I_.term(own))))


@extm('keyjar', 'get_jwt_verify_keys')
def kj_vkeys(I_, o, a, kw):
    I_.assumed.add(ASSUME + 'KeyJar.get_jwt_verify_keys returns keys registered for the issuer of that very token')
    j = a[0]
    if not (isinstance(j, Ext) and j.kind == 'jwt'):
        I_.throw(AnyExc)
    anyexc(I_)
    c = I_.c
    l = c.fresh('vkeys', I)
    i = c.fresh('i', I)
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(l)),
                                       z3.And(KEYOF(o.f['id'], j.f['t'], lnth(l, i)), z3.Not(Val.is_Obj_(lnth(l, i)))))))
    return SV(Val.List_(l))


@extm('keyjar', 'update')
def kj_update(I_, o, a, kw):
    anyexc(I_)
    return None


# ------------------------------------------------------------------ hashes, JSON
@model(_left_hash)
def m_left_hash(I_, a, kw):
    I_.assumed.add(ASSUME + 'left_hash is a function of text and algorithm; None for unknown algorithms')
    m = a[0]
    f = argv(I_, a, kw, 1, 'func', 'HS256')
    t = text(I_, m)
    if t is None:
        I_.throw(AnyExc)
    ft = text(I_, f)
    if ft is None:
        return None
    known = z3.Or(*[ft == z3.StringVal(n) for n in LHFN])
    return SV(z3.If(known, Val.Str_(LHASH(ft, t)), NONE))


JD = z3.Function('json_text', Val, S)


@model(json.dumps)
def m_dumps(I_, a, kw):
    I_.assumed.add('json.dumps gives a text determined by the value, TypeError or ValueError for what has no JSON form')
    x = I_.view(a[0]) if isinstance(a[0], SV) and con_of(a[0].t) else a[0]
    if isinstance(x, (HObj, bytes)) and not kw:
        I_.throw(TypeError, 'not JSON serializable')
    k = I_.c.choose(3)
    if k:
        I_.throw((TypeError, ValueError)[k - 1], 'not JSON serializable')
    if isinstance(x, SV) and not kw:
        I_.c.assume(z3.Not(z3.Or(Val.is_Msg_(x.t), Val.is_Byt_(x.t), Val.is_Obj_(x.t))))
        return SV(Val.Str_(JD(x.t)))
    return SV(Val.Str_(I_.c.fresh('jtext', S)))


@model(json.loads)
def m_loads(I_, a, kw):
    I_.assumed.add('json.loads is a function of the text; ValueError for what is no JSON')
    t = text(I_, a[0])
    if t is None:
        I_.throw(TypeError, 'the JSON object must be str, bytes or bytearray')
    if not I_.c.branch(JOK(t)):
        I_.throw(json.JSONDecodeError, 'x', 'x', 0)
    v = JV(t)
    I_.c.assume(z3.Not(z3.Or(Val.is_Obj_(v), Val.is_Msg_(v), Val.is_Byt_(v))))
    return I_.val(v)
