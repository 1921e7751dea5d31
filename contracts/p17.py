"""P17: claims requests match claim values as specified; malformed constraints are refused."""
from .common import *
from .verify import *
from .tokens import FromDict
from oidcmsg.oauth2 import error_chars
from oidcmsg.oidc import claims_match
import abc
import z3

VAL = ['a', 'b', 1, 0, True, False, None, ['a'], '']
SPEC = [{'value': 'a'}, {'values': ['a', 'b']}, {'essential': True}, {'essential': False, 'value': 'b'}, {'value': 1},
        {'values': []}, {'values': [1, 'a'], 'essential': True}, {'value': 'b', 'values': ['a']}, {'values': ['a', None]},
        {'essential': 1}, {'value': None, 'values': ['a']}, {'value': ''}, {'value': 0}]


@obligation('P17', 'claims_match.unconstrained')
def unconstrained(h):
    v = h.val('value', hint=VAL)
    r = h.call(claims_match, v, None)
    h.check('no constraint matches any value', r.ok and h.is_true(r.val))
    e = h.val('essential', 'bool', 'none', hint=[True, False, None])
    r = h.call(claims_match, v, h.mkdict({'essential': e}))
    h.check('only the essential flag: matches any value', r.ok and h.is_true(r.val))


@obligation('P17', 'claims_match')
def match(h):
    v = h.val('value', 'none', 'bool', 'int', 'float', 'str', 'list', 'dict', hint=VAL)
    s = h.dict('spec', hint=SPEC)
    has, get = h.has, h.get
    h.assume(h.Imp(has(s, 'values'), h.isk(get(s, 'values'), 'list')))
    h.assume(h.Or(has(s, 'value'), has(s, 'values')))
    r = h.call(claims_match, v, s)
    want = h.Or(h.And(has(s, 'value'), h.eq(v, get(s, 'value'))), h.And(has(s, 'values'), h.mem(v, get(s, 'values'))))
    h.check('answers', r.ok)
    if r.ok:
        h.check('a match is the value or one of the values', h.Imp(h.is_true(r.val), want))
        h.check('the value and each of the values match', h.Imp(want, h.is_true(r.val)))
        h.check('yes or no', h.Or(h.is_true(r.val), h.is_false(r.val)))


BADC = {t: z3.Function('bad_constraint_' + t.__name__, Val, z3.BoolSort()) for t in (str, int, bool)}
MALF = {}


def bad_constraint(h, c, typ):
    """opaque where the function that decides it is called; its meaning (bad_def) is proved of the body"""
    return h.g(lambda v: BADC[typ](h.I.term(v)), c) if h.sym else bad_def(h, c, typ)


def bad_def(h, c, typ):
    """the constraint of one claim of the given type is malformed"""
    has, get = h.has, h.get
    ess, val, vals, pur = (get(c, k) for k in ('essential', 'value', 'values', 'purpose'))
    N = {str: ('str',), int: ('int', 'bool'), bool: ('bool',)}[typ]
    chars = ERRCHARS
    return h.And(h.isk(c, 'dict'), h.Or(
        h.And(has(c, 'essential'), h.Not(h.mem(ess, [None, True, False]))),
        h.And(has(c, 'value'), h.truthy(val), h.Not(h.isk(val, *N))),
        h.And(has(c, 'values'), h.Not(h.forall_elems(vals, lambda e: h.isk(e, *N)))),
        h.And(has(c, 'purpose'), h.truthy(pur), h.isk(pur, 'str'),
              h.Or(h.lt(h.len(pur), 3), h.lt(300, h.len(pur)), h.Not(h.charset(pur, chars))))))


def regular(h, c):
    """members of the expected container kinds"""
    return h.And(h.Imp(h.has(c, 'values'), h.isk(h.get(c, 'values'), 'list')),
                 h.Imp(h.has(c, 'purpose'), h.isk(h.get(c, 'purpose'), 'str', 'none')))


CONS = [{'essential': 'yes'}, {'essential': True}, {'value': 'a'}, {'value': 1}, {'values': ['a', 1]}, {'values': ['a']},
        {'purpose': 'ab'}, {'purpose': 'abc'}, {'purpose': 'x' * 300}, {'purpose': 'x' * 301}, {'purpose': 'ab"c'},
        {'purpose': 'abü'}, {'value': 'a', 'values': [1]}, {'value': 0}, {'values': [True]}, {'values': [0]}, {'values': ['']},
        {'value': True}, {'essential': 2}, {'essential': None}, {'values': []}, {'purpose': ''}]


class ConstraintOk(Contract):
    """_verify_claims_request_value: tells whether the constraint of one claim is well-formed"""
    name = 'identity_assurance._verify_claims_request_value'
    raises = (TypeError,)

    def fn(self):
        return ida._verify_claims_request_value

    def applies(self, I_, args, kw):
        return len(args) == 2 and args[1] in (str, int, bool)

    def pre(self, I_, h, args, kw):
        st = St()
        st.v, st.typ = args
        st.define = False
        return st

    def outcomes(self, I_, h, st):
        return [True, False, TypeError]

    def result(self, I_, h, st):
        return st.outcome

    def clauses(self, h, st, out):
        bad = (bad_def if st.define else bad_constraint)(h, st.v, st.typ)
        reg = h.Or(h.Not(h.isk(st.v, 'dict')), regular(h, st.v)) if st.define else False
        if out is TypeError:
            return [('fails only on members of another container kind', h.Not(reg))]
        if out:
            return [('accepted => well-formed', h.Not(bad))]
        return [('refused => malformed, or a member of another container kind', h.Or(bad, h.Not(reg)))]


def one(typ):
    def ob(h):
        c = h.val('constraint', hint=CONS + [None, 'text', 3])
        r = h.call(ida._verify_claims_request_value, c, typ)
        h.check('yes, no or a TypeError', h.Or(h.is_true(r.val), h.is_false(r.val)) if r.ok else r.raised(TypeError))
        st = St()
        st.v, st.typ, st.define = c, typ, True
        k = ConstraintOk()
        if r.ok:
            for o in (True, False):
                for lab, f in k.clauses(h, st, o):
                    h.check(lab, h.Imp(h.is_true(r.val) if o else h.is_false(r.val), f))
        else:
            for lab, f in k.clauses(h, st, r.exc):
                h.check(lab, f)
    return ob


for t in (str, int, bool):
    obligation('P17', 'constraint[%s]' % t.__name__)(one(t))


class RequestOk(Contract):
    """verify_claims_request(request, description): returns only when no constraint is malformed"""
    name = 'identity_assurance.verify_claims_request'
    raises = (ValueError, AnyExc)

    def fn(self):
        return ida.verify_claims_request

    def applies(self, I_, args, kw):
        return len(args) == 2 and isinstance(args[1], HObj)

    def pre(self, I_, h, args, kw):
        st = St()
        st.m, st.cls = args[0], args[1].cls
        return st

    def clauses(self, h, st, out):
        if out == 'ok':
            return [('accepted => no constraint is malformed', h.Not(malformed(h, st.m, st.cls)))]
        return []


class Nested(RequestOk):
    """only the calls for nested claims"""

    def applies(self, I_, args, kw):
        if not RequestOk.applies(self, I_, args, kw) or I_.depth == 0:
            return False
        return True


def body(cls, make):
    """the body of verify_claims_request for a request described by cls; the calls for the nested
    claims are taken by the contract"""
    def ob(h):
        v = make(h)
        h.assume(h.isk(v, 'dict', 'msg'))
        base = h.newmessage(cls)
        r = h.call(ida.verify_claims_request, v, base)
        if r.ok:
            h.cover('accept')
            h.check('accepted => no constraint is malformed', h.Not(malformed_def(h, v, cls)))
    return ob


def malformed(h, m, cls):
    """some constraint in the request for the claims of the class is malformed: opaque at calls"""
    if h.sym and (isinstance(m, SV) or type(m).__name__ == 'GV'):
        f = MALF.setdefault(cls, z3.Function('malformed_' + cls.__name__, Val, z3.BoolSort()))
        return h.g(lambda v: f(h.I.term(v)) if h.I.termable(v) else malformed_def(h, v, cls), m)
    return malformed_def(h, m, cls)


def malformed_def(h, m, cls):
    out = []
    for k, spec in cls.c_param.items():
        typ = spec[0]
        there, v = h.has(m, k), h.get(m, k)
        if typ in (str, int, bool):
            out.append(h.And(there, bad_constraint(h, v, typ)))
        elif isinstance(typ, abc.ABCMeta):
            out.append(h.And(there, h.Not(h.isnone(v)), malformed(h, v, typ)))
        elif isinstance(typ, list):
            e = typ[0]
            if e in (str, int, bool):
                out.append(h.And(there, h.exists_elems(v, lambda x: bad_constraint(h, x, e))))
            elif isinstance(e, abc.ABCMeta):
                out.append(h.And(there, h.exists_elems(v, lambda x: h.And(h.Not(h.isnone(x)), malformed(h, x, e)))))
    return h.Or(*out)


def constr(r):
    x = r.choice(CONS + [None, 'text'])
    return dict(x) if isinstance(x, dict) else x


def rnd_claims(cls):
    def g(r):
        m = Message()
        for k in r.sample(sorted(cls.c_param), min(3, len(cls.c_param))):
            m._dict[k] = constr(r)
        return m
    return g


def rnd_verification(r):
    m = Message()
    for k in ('trust_framework', 'time', 'verification_process'):
        if r.random() < .5:
            m._dict[k] = constr(r)
    if r.random() < .5:
        m._dict['evidence'] = [None if r.random() < .2 else {'type': constr(r)} for _ in range(r.choice([0, 1, 2]))]
    return m


def request(cls, described, hints):
    def ob(h):
        m = h.message('m', cls, hints=hints)
        kw = h.kwargs('kw', others=True)
        pre = h.snap(m)
        r = h.call((m, 'verify'), kw_=kw)
        if r.ok:
            h.cover('accept')
            h.check('accepted => no constraint is malformed', h.Not(malformed(h, pre, described)))
            for lab, f in base_accept(h, pre, cls):
                h.check('accepted => ' + lab, f)
        h.check('message unchanged', h.unchanged(pre, m))
    return ob


def base_accept(h, m, cls):
    missing, bad = base_violations(h, m, cls)
    return [('every required parameter present', h.Not(missing)), ('only allowed values', h.Not(bad))]


VE = {'trust_framework': ['x'], 'time': ['t']}
CL = rnd_claims(ida.IdentityAssuranceClaims)
for c, make in ((ida.VerificationElement, lambda h: h.val('request', hint=rnd_verification)),
                (ida.IdentityAssuranceClaims, lambda h: h.val('request', hint=CL)),
                (ida.Evidence, lambda h: h.val('request', hint=lambda r: {'type': constr(r)})),
                (Message, lambda h: h.val('request', hint=CL)),
                (ida.VerifiedClaims, lambda h: h.val('request', hint=lambda r: {
                    k: g(r) for k, g in (('verification', rnd_verification), ('claims', CL)) if r.random() < .7}))):
    obligation('P17', 'verify_claims_request[%s]' % cname(c), need=('accept',),
               contracts=[ConstraintOk(), Nested()])(body(c, make))
REQ = [MessageVerify(), RequestOk()]
obligation('P17', 'VerificationElementRequest.verify', need=('accept',), contracts=REQ)(
    request(ida.VerificationElementRequest, ida.VerificationElement, VE))
obligation('P17', 'VerifiedClaimsRequest.verify', need=('accept',), contracts=REQ)(
    request(ida.VerifiedClaimsRequest, ida.VerifiedClaims, {'verification': rnd_verification, 'claims': CL}))
prove_base('P17', ida.VerificationElementRequest)
prove_base('P17', ida.VerifiedClaimsRequest)


@obligation('P17', 'IDAClaimsRequest.verify', need=('accept',), contracts=REQ + [FromDict()])
def ida_request(h):
    """the request of an identity assurance claims request object is checked, typed and stored"""
    m = h.message('m', ida.IDAClaimsRequest,
                  hints={'verified_claims': lambda r: {k: g(r) for k, g in (('verification', rnd_verification), ('claims', CL))
                                                       if r.random() < .7}})
    h.assume(h.And(h.has(m, 'verified_claims'), h.truthy(h.get(m, 'verified_claims'))))
    pre = h.snap(m)
    r = h.call((m, 'verify'), kw_=h.kwargs('kw', others=True))
    if r.ok:
        h.cover('accept')
        v = h.get(m, 'verified_claims')
        h.check('accepted => the request is stored as a verified claims request',
                h.isinst(v, ida.VerifiedClaimsRequest))
        h.check('accepted => no constraint is malformed', h.Not(malformed(h, v, ida.VerifiedClaims)))
        h.check('nothing else changes', h.unchanged(pre, m, 'verified_claims'))
