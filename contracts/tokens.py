"""Contracts of loading messages: from_dict (frame and ghost), from_jwt."""
import z3
from .common import *
from pyvc import hooks, toknat
from pyvc import tokmodel as tm
from pyvc.contract import Contract, St
from .verify import *
from pyvc.vals import *
from pyvc.heap import *
from pyvc.harness import welltyped_facts
from pyvc.interp import AnyExc

EXC = (AnyExc,)


def fresh_instance(m):
    """only the class defaults (or nothing) in the message"""
    d = m.attrs.get('_dict')
    return isinstance(d, HDict) and d.base is None and all(
        isinstance(e, Ent) and e.key in m.cls.c_default for e in d.lay)


def loaded_dict(I_, h, cls, payload):
    """parameters of a fresh message of the class loaded from the mapping: declared types hold (P06)"""
    d = tm.FROMD(z3.IntVal(hooks.code_of(h, cls)), I_.term(payload))
    h.strkeys(d)
    welltyped_facts(h, d, cls)
    hd = HDict(base=d)
    hd.welltyped = cls
    return hd


class FromDict(Contract):
    """Message.from_dict: loads the mapping or raises, possibly after storing some of it.
    Ghost '#loaded': the mapping that was loaded."""
    name = 'Message.from_dict'
    assumed = 'contract of Message.from_dict (assumed): a fresh message is loaded with a function of class and mapping, declared parameters have their declared types; any message may be changed in any way when it raises'

    def fn(self):
        return Message.from_dict

    def applies(self, I_, args, kw):
        return len(args) == 2 and isinstance(args[0], HObj) and self.mapping(I_, h=None, v=args[1]) is not None

    def mapping(self, I_, h, v):
        """the mapping as a value: also keyword arguments without some of the names"""
        if isinstance(v, HDict) and v.base is not None and all(
                isinstance(e, Ent) and e.val is DEL and e.cond is True and isinstance(e.key, str) for e in v.lay):
            if h is None or not v.lay:
                return SV(Val.Dict_(v.base))
            d, k = h.c.fresh('kwrest', I), h.c.fresh('k', Val)
            h.c.assume(z3.ForAll([k], z3.And(
                dhas(d, k) == z3.And(dhas(v.base, k), *[k != VStr(e.key) for e in v.lay]),
                dget(d, k) == dget(v.base, k))))
            h.strkeys(d)
            return SV(Val.Dict_(d))
        if isinstance(v, HDict) and any(isinstance(e, PLayer) for e in v.lay):
            # keyword arguments computed by a loop: any mapping from names
            if h is None:
                return v
            d = h.c.fresh('kwany', I)
            h.strkeys(d)
            return SV(Val.Dict_(d))
        return v if I_.termable(v) else None

    def pre(self, I_, h, args, kw):
        st = St()
        st.m, st.val = args[0], self.mapping(I_, h, args[1])
        st.fresh = fresh_instance(st.m)
        return st

    def outcomes(self, I_, h, st):
        return ['ok', AnyExc]

    def havoc(self, I_, h, st):
        I_.setattr_(st.m, '#loaded', st.val)
        if st.outcome == 'ok' and st.fresh:
            I_.setattr_(st.m, '_dict', loaded_dict(I_, h, st.m.cls, st.val))
        else:
            d = h.c.fresh('loaded', I)
            h.strkeys(d)
            I_.setattr_(st.m, '_dict', HDict(base=d))

    def result(self, I_, h, st):
        return st.m

    def clauses(self, h, st, out):
        if out == 'ok':
            return [('a mapping was loaded', h.isk(st.val, 'dict', 'msg'))]
        return []


class FromJwt(Contract):
    """Message.from_jwt of a fresh message: what may have been loaded when it returns."""
    name = 'Message.from_jwt'

    def fn(self):
        return Message.from_jwt

    def applies(self, I_, args, kw):
        return len(args) in (2, 3, 4) and isinstance(args[0], HObj) and fresh_instance(args[0])

    def pre(self, I_, h, args, kw):
        st = St()
        st.m, st.txt = args[0], args[1]
        st.cls = st.m.cls
        st.missing = False
        if len(args) > 2:
            st.kj = args[2]
        elif I_.c.branch(h.has(kw, 'keyjar')):
            st.kj = I_.dgetv(kw, 'keyjar')
        else:
            st.missing = True
            return st
        if not (st.kj is None or isinstance(st.kj, Ext)):
            I_.unsup('key jar %r' % (st.kj,))
        st.verify = args[3] if len(args) > 3 else h.getdef(kw, 'verify', True)
        st.alg = h.getdef(kw, 'encalg', '')
        st.enc = h.getdef(kw, 'encenc', '')
        st.sigalg = h.getdef(kw, 'sigalg', None)
        return st

    def outcomes(self, I_, h, st):
        if st.missing:
            return [TypeError]
        if I_.kind(st.txt) != 'Str_':
            I_.unsup('from_jwt of no text')
        return ['ok', AnyExc]

    def havoc(self, I_, h, st):
        if st.outcome != 'ok':
            return
        c = I_.c
        tm.none_facts(I_, h, st.alg, st.enc)
        txt = h.strof(st.txt)
        inner = txt
        jwe = h.isjwe(st.txt, st.alg, st.enc)
        if st.kj is None:
            c.assume(h.Not(jwe))
        elif jwe is not False:
            jwe = zb(jwe)
            c.assume(z3.Implies(jwe, z3.Not(tm.JWSIS(txt))))
            inner = z3.If(jwe, h.strof(h.decr(st.kj, st.txt)), txt)
            I_.setattr_(st.m, 'jwe_header', SV(z3.If(jwe, Val.Dict_(tm.JHDR(txt)), Val.None_)))
        if z3.is_app(inner) and inner.decl().kind() == z3.Z3_OP_ITE:
            named = c.fresh('inner', S)
            c.assume(named == inner)
            inner = named
        st.inner = SV(Val.Str_(inner))
        c.assume(z3.Implies(tm.JWSIS(inner), z3.Not(tm.JWSJ(inner))))
        tm.hdr_facts(I_, inner)
        I_.setattr_(st.m, 'jws_header', SV(z3.If(tm.JWSIS(inner), Val.Dict_(tm.HDR(inner)), Val.None_)))
        c.assume(z3.Or(tm.JWSIS(inner), tm.JOK(inner)))
        pay = st.pay = SV(z3.If(tm.JWSIS(inner), tm.PAY(inner), tm.JV(inner)))
        inner = st.inner
        I_.setattr_(st.m, 'jwt', inner)
        I_.setattr_(st.m, '#loaded', pay)
        I_.setattr_(st.m, '_dict', loaded_dict(I_, h, st.cls, pay))

    def result(self, I_, h, st):
        return st.m

    def clauses(self, h, st, out):
        if out != 'ok':
            return []
        return [('a mapping was loaded', h.isk(st.pay, 'dict'))] + jwt_clauses(h, st.inner, st.kj, st.verify, st.sigalg)


class ToDict(Contract):
    """Message.to_dict: some mapping; the message is not changed.  (Used where the result only
    goes to the log.)"""
    name = 'Message.to_dict'
    assumed = 'contract of Message.to_dict (assumed, used where messages are logged or wrapped): it changes nothing'

    def fn(self):
        return Message.to_dict

    def applies(self, I_, args, kw):
        return len(args) == 1 and isinstance(args[0], HObj)

    def pre(self, I_, h, args, kw):
        return St()

    def outcomes(self, I_, h, st):
        return ['ok', AnyExc]

    def result(self, I_, h, st):
        return SV(Val.Dict_(h.c.fresh('todict', I)))

    def clauses(self, h, st, out):
        return []


def jwt_clauses(h, t, kj, verify, sigalg):
    """text t was loaded with the key jar: its signature was verified unless that is not asked for"""
    signed = h.is_jws(t)
    alg = h.get(h.hdr(t), 'alg')
    must = h.And(signed, h.Not(h.eq(alg, 'none')), h.truthy(verify))
    return [('signed, algorithm not none, verification not switched off => signature verified with a key of the key set',
             h.Imp(must, h.verified(kj, t))),
            ('... and with the algorithm the caller gave', h.Imp(h.And(must, h.truthy(sigalg)), h.Or(h.eq(sigalg, alg),
                                                                                                h.mem(alg, sigalg))))]


ISS = ['a', 'https://op.example.org']


def token_kw(h, *exclude):
    """verification options; the key jar may be given, None or left out"""
    kj = None
    req = {}
    how = h.pick('keyjar', ['given', 'none', 'absent'])
    if how == 'given':
        kj = h.keyjar('kj', hint=ISS)
    if how != 'absent':
        req['keyjar'] = kj
    opt = {'iss': h.str('kiss', hint=['a', 'https://op.example.org']),
           'client_id': h.str('kclient_id', hint=['a', 'a', 'b']),
           'skew': h.int('kskew', hint=[0, 1, 60]),
           'nonce_storage_time': h.int('kstore', hint=[60, 14400]),
           'nonce': h.str('knonce', hint=['a', 'b']),
           'verify': h.val('kverify', 'bool', 'none', 'int', hint=[True, True, False]),
           'sigalg': h.str('ksigalg', hint=['RS256', 'ES256', 'none']),
           'encalg': h.str('kencalg', hint=['RSA-OAEP']), 'encenc': h.str('kencenc', hint=['A128CBC-HS256']),
           'allow_sign_alg_none': h.val('kallow', 'bool', 'none', 'int', hint=[True, False, None, 0]),
           'allowed_sign_alg': h.str('kallowed', hint=['RS256', 'RS256', 'ES256', 'none', 'ES256K', 'RS25', 'HS512'])}
    kw = h.kwargs('kw', req=req, opt=opt, others=True, exclude=('keyjar', 'claim', 'check_hash', 'msg', 'txt') + exclude)
    return kj, kw


def token_clauses(h, pre, post, kj, kw, claim, check_hash):
    """verify_id_token returned True: what holds of the token under `claim`"""
    A, N, I, O = h.And, h.Not, h.Imp, h.Or
    t = h.get(pre, claim)
    hdr, pay = h.hdr(t), h.pay(t)
    alg = h.get(hdr, 'alg')
    signed = N(h.eq(alg, 'none'))
    out = [('an encoded token', h.isk(t, 'str')),
           ('the value is a JWS', h.is_jws(t)),
           ('keys were given', h.has(kw, 'keyjar')),
           ('algorithm none only if the caller allows it',
            O(signed, h.eq(h.getdef(kw, 'sigalg', ''), 'none'), h.truthy(h.getdef(kw, 'allow_sign_alg_none', False)))),
           ('signed with the allowed algorithm',
            I(A(signed, h.has(kw, 'allowed_sign_alg')), h.eq(alg, h.get(kw, 'allowed_sign_alg')))),
           ('the keys of the issuer are known', I(signed, A(h.has(pay, 'iss'), h.kjhas(kj, h.get(pay, 'iss')))))]
    out += jwt_clauses(h, t, kj, h.getdef(kw, 'verify', True), h.getdef(kw, 'sigalg', None))
    mark = '__verified_' + claim
    tok = h.get(post, mark)
    out.append(('the verified token is there', A(h.has(post, mark), h.isinst(tok, oi.IdToken))))
    for c, idt in h.objs(tok):
        if idt is None:
            out.append(('the verified token is an ID Token', N(c)))
            continue
        out.append(('the verified token is the decoded one', I(c, A(h.eq(h.attr(idt, 'jwt'), t), h.same(
            h.attr(idt, '_dict'), h.fromd(oi.IdToken, pay))))))
        out.append(('the header of the verified token is the decoded one', I(c, h.same(h.attr(idt, 'jws_header'), hdr))))
        for n, (v, _) in idtoken_rules(h, idt, kw).items():
            out.append(('not: ' + n, I(c, N(v))))
        if not check_hash:
            continue
        for src, k in (('access_token', 'at_hash'), ('code', 'c_hash')):
            hashed = A(c, signed, h.has(pre, src))
            out.append(('%s present => %s present' % (src, k), I(hashed, h.has(idt, k))))
            for bits in ('256', '384', '512'):
                out.append(('%s is matched by %s (%s)' % (src, k, bits),
                            I(A(hashed, h.endswith(alg, bits)), h.eq(h.get(idt, k), h.lhash('HS' + bits, h.get(pre, src))))))
    return out


class VerifyIdToken(Contract):
    """verify_id_token: True only if token_clauses hold; only the marker of the claim changes."""
    name = 'verify_id_token'

    def fn(self):
        return oi.verify_id_token

    def applies(self, I_, args, kw):
        return 1 <= len(args) <= 3 and isinstance(args[0], HObj)

    def pre(self, I_, h, args, kw):
        st = St()
        st.m = args[0]
        def arg(i, n, dflt):
            if len(args) > i:
                return args[i]
            return I_.dgetv(kw, n) if I_.c.branch(zb(h.has(kw, n))) else dflt
        st.check_hash = arg(1, 'check_hash', False)
        st.claim = arg(2, 'claim', 'id_token')
        if not isinstance(st.check_hash, bool) or not isinstance(st.claim, str):
            I_.unsup('verify_id_token arguments %r %r' % (st.check_hash, st.claim))
        st.kw = HDict(kw.base, [e for e in kw.lay if e.key not in ('check_hash', 'claim')])
        st.pre = h.snap(st.m)
        st.kj = None
        if I_.c.branch(zb(h.has(kw, 'keyjar'))):
            st.kj = I_.dgetv(kw, 'keyjar')
        return st

    def outcomes(self, I_, h, st):
        return [True, False, AnyExc]

    def havoc(self, I_, h, st):
        if st.outcome is not True:
            return
        c = I_.c
        c.assume(h.has(st.pre, st.claim))
        t = h.get(st.pre, st.claim)
        c.assume(h.isk(t, 'str'))
        idt = I_.instantiate(oi.IdToken, [], HDict())
        I_.setattr_(idt, 'jwt', t)
        I_.setattr_(idt, 'jws_header', HDict(base=tm.HDR(h.strof(t)), frozen=True))
        tm.hdr_facts(I_, h.strof(t))
        I_.setattr_(idt, '_dict', loaded_dict(I_, h, oi.IdToken, h.pay(t)))
        I_.dset(st.m.attrs['_dict'], '__verified_' + st.claim, idt)

    def result(self, I_, h, st):
        return st.outcome

    def clauses(self, h, st, out):
        return token_clauses(h, st.pre, st.m, st.kj, st.kw, st.claim, st.check_hash) if out is True else []
