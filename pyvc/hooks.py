"""token operations of the two harnesses (symbolic and native twin)"""
import z3
from .vals import *
from .heap import *
from .harness import SymH
from .native import NatH
from .ctx import lstr
from . import toknat
from . import tokmodel as tm


# ------------------------------------------------------------------ symbolic
def s_keyjar(h, name, hint=None):
    e = tm.new_keyjar(h.I, name)
    return h.ext(name, e, conc_keyjar)


def conc_keyjar(conc, e):
    out = []
    for a in conc.apps:
        if a.decl().name() == 'kj_has' and conc.ev(a.arg(0)).eq(conc.ev(e.f['id'])) and conc.isT(a):
            v = conc.value(a.arg(1))
            if isinstance(v, str) and v not in out:
                out.append(v)
    for t, c in conc.tokens.items():
        if c.get('good') and isinstance(c['claims'], dict) and isinstance(c['claims'].get('iss'), str):
            if c['claims']['iss'] not in out and not any(
                    a.decl().name() == 'kj_has' and conc.isT(z3.Not(a)) and conc.value(a.arg(1)) == c['claims']['iss']
                    for a in conc.apps):
                out.append(c['claims']['iss'])
    return out


def s_txt(h, v):
    return h.strof(v)


def s_is_jws(h, v):
    return h.g(lambda x: And(is_kind(h.I.term(x), 'Str_'), tm.JWSIS(h.strof(x)), Not(tm.JWSJ(h.strof(x)))), v)


def s_hdr(h, v):
    """header of the token"""
    return h.g1(lambda x: HDict(base=tm.HDR(h.strof(x)), frozen=True), v)


def s_pay(h, v):
    """payload of the signed token, or value of the JSON text"""
    def f(x):
        t = h.strof(x)
        return SV(z3.If(tm.JWSIS(t), tm.PAY(t), tm.JV(t)))
    return h.g1(f, v)


def s_jwspay(h, v):
    return h.g1(lambda x: SV(tm.PAY(h.strof(x))), v)


def s_verified(h, kj, v):
    """the signature of the text was made with a key the key jar has for it"""
    if not isinstance(kj, Ext):
        return False
    k = h.c.fresh('k', Val)

    def f(x):
        t = h.strof(x)
        return z3.Exists([k], z3.And(tm.SIGOK(t, k), tm.KEYOF(kj.f['id'], t, k)))
    return h.g(f, v)


def s_kjhas(h, kj, v):
    return tm.KJHAS(kj.f['id'], h.I.term(v)) if isinstance(kj, Ext) else False


def s_kjtrue(h, kj):
    return tm.KJT(kj.f['id']) if isinstance(kj, Ext) else False


def code_of(h, cls):
    for k, c in h.I.class_codes.items():
        if c is cls:
            return k
    raise KeyError(cls)


def s_fromd(h, cls, v):
    """the parameters a fresh message of the class has after loading the mapping"""
    return h.g1(lambda x: HDict(base=tm.FROMD(z3.IntVal(code_of(h, cls)), h.I.term(x)), frozen=True), v)


def s_lhash(h, fn, v):
    return h.g1(lambda x: SV(Val.Str_(tm.LHASH(z3.StringVal(fn), h.strof(x)))), v)


def s_isjwe(h, v, alg, enc):
    return h.g2(lambda a, e: tm.JWEIS(h.strof(v), h.I.term(a), h.I.term(e)), alg, enc)


def s_decr(h, kj, v):
    return SV(Val.Str_(tm.DECR(h.strof(v), tm.DKEYS(kj.f['id'], VStr('')))))


for n, f in list(globals().items()):
    if n.startswith('s_'):
        setattr(SymH, n[2:], f)


# ------------------------------------------------------------------ native
def n_keyjar(h, name, hint=None):
    iss = h._in(name, lambda r: [i for i in (hint or ['a', 'https://op.example.org']) if r.random() < .8])
    return toknat.mkkeyjar(iss)


def n_is_jws(h, v):
    return isinstance(v, str) and toknat.is_jws(v)


def n_hdr(h, v):
    return toknat.hdr(v)


def n_pay(h, v):
    return toknat.pay(v)


n_jwspay = n_pay


def n_verified(h, kj, v):
    return isinstance(v, str) and toknat.verified(kj, v)


def n_kjhas(h, kj, v):
    try:
        return kj is not None and v in kj
    except Exception:
        return False


def n_kjtrue(h, kj):
    return bool(kj)


def n_fromd(h, cls, v):
    return toknat.fromd(cls, v)


def n_lhash(h, fn, v):
    from cryptojwt.jws.utils import left_hash
    try:
        return left_hash(v, fn)
    except Exception:
        return None


def n_isjwe(h, v, alg, enc):
    from cryptojwt.jwe.jwe import factory
    try:
        return bool(factory(v, alg=alg, enc=enc))
    except Exception:
        return False


def n_decr(h, kj, v):
    return toknat.decrypted(kj, v)


for n, f in list(globals().items()):
    if n.startswith('n_'):
        setattr(NatH, n[2:], f)


# ------------------------------------------------------------------ model texts -> real tokens
def realize_tokens(conc):
    conc.tokens = {}
    txts = {}
    for a in conc.apps:
        n = a.decl().name()
        if n in ('jws_is', 'jws_pay', 'jws_hdr', 'jwe_is', 'sigok', 'json_ok', 'json_val') and a.num_args():
            v = conc.ev(a.arg(0))
            if z3.is_string_value(v):
                txts[z3str(v)] = v
    plain = {}
    for s, v in txts.items():
        if conc.isT(tm.JWSIS(v)) and not conc.isT(tm.JWSJ(v)):
            claims = conc.value(tm.PAY(v))
            al = conc.value(dget(tm.HDR(v), VStr('alg')))
            if not isinstance(al, str) or al not in tm.SIGNER_ALGS:
                al = 'RS256'
            good = any(x.decl().name() == 'sigok' and conc.ev(x.arg(0)).eq(v) and conc.isT(x) for x in conc.apps)
            try:
                conc.strmap[s] = toknat.sign(claims, al, 'good' if good else 'bad')
                conc.tokens[s] = {'claims': claims, 'alg': al, 'good': good}
            except Exception:
                pass
        elif conc.isT(tm.JOK(v)):
            import json
            try:
                conc.strmap[s] = json.dumps(conc.value(tm.JV(v)))
            except Exception:
                pass
    from cryptojwt.jws.utils import left_hash
    for a in conc.apps:
        n = a.decl().name()
        if n == 'lhash':
            o, f, i = conc.ev(a), conc.ev(a.arg(0)), conc.ev(a.arg(1))
            if z3.is_string_value(o) and z3.is_string_value(i) and z3str(f) in tm.LHFN:
                conc.strmap[z3str(o)] = left_hash(conc.strmap.get(z3str(i), z3str(i)), z3str(f))
    # tokens again: claims may hold hashes
    for s, c in conc.tokens.items():
        try:
            cl = conc.value(tm.PAY(txts[s]))
            conc.strmap[s] = toknat.sign(cl, c['alg'], 'good' if c['good'] else 'bad')
            c['claims'] = cl
        except Exception:
            pass


from .models import REALIZERS
REALIZERS.append(realize_tokens)
