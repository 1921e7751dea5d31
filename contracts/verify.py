"""Contracts of the verify methods, used at call sites and proved of the bodies."""
from .common import *
from pyvc.contract import Contract, St
from pyvc.vals import *
from pyvc.heap import *
from pyvc.interp import AnyExc


class MessageVerify(Contract):
    """Message.verify: base validation.  No precondition; nothing changes."""
    name = 'Message.verify'
    raises = (X.MissingRequiredAttribute, X.NotAllowedValue)

    def fn(self):
        return Message.verify

    def applies(self, I_, args, kw):
        return len(args) == 1 and isinstance(args[0], HObj) and isinstance(args[0].attrs.get('_dict'), HDict)

    def pre(self, I_, h, args, kw):
        st = St()
        st.m = args[0]
        st.cls = args[0].cls
        st.pre = h.snap(st.m)
        return st

    def result(self, I_, h, st):
        return True

    def clauses(self, h, st, out):
        missing, bad = base_violations(h, st.pre, st.cls)
        if out == 'ok':
            return [('accepted => every required parameter present', h.Not(missing)),
                    ('accepted => only allowed values', h.Not(bad)),
                    ('returns True', h.is_true(st.result))]
        if out is X.MissingRequiredAttribute:
            return [('refused as missing => a required parameter is missing', missing)]
        return [('refused as not allowed => a value is not allowed', bad)]

    def prove(self, h, m):
        st = St()
        st.m, st.cls, st.pre = m, m.cls if h.sym else type(m), h.snap(m)
        r = h.call(Message.verify, m)
        st.result = r.val
        if r.ok:
            h.cover('accept')
        h.check('only the two documented refusals', r.ok or r.exc in self.raises)
        if r.ok or r.exc in self.raises:
            for lab, f in self.clauses(h, st, 'ok' if r.ok else r.exc):
                h.check(lab, f)
        h.check('message unchanged', h.unchanged(st.pre, m))


# ---------------------------------------------------------------- error texts, schema
ERRCHARS = sorted((set(range(0x20, 0x7F))) - {0x22, 0x5c})      # RFC 6749


def bad_error_text(h, m):
    """the error description has a character outside the allowed set (or is no text at all)"""
    v = h.get(m, 'error_description')
    return h.And(h.has(m, 'error_description'), h.Not(h.And(h.isk(v, 'str'), h.charset(v, ERRCHARS))))


def bad_birthdate(h, m):
    v = h.get(m, 'birthdate')
    ok = h.Or(*[h.strp(f, v) for f in ('%Y-%m-%d', '%Y', '0000-%m-%d')])
    return h.And(h.has(m, 'birthdate'), h.Not(h.And(h.isk(v, 'str'), ok)))


# ---------------------------------------------------------------- IdToken.verify
NOWH = 1600000000
IDT_HINTS = {'iss': ['a', 'https://op.example.org'], 'aud': [['a'], ['a', 'b'], ['b'], ['b', 'a', 'c']],
             'azp': ['a', 'b'], 'exp': [NOWH, NOWH + 1, NOWH - 1, NOWH + 100, NOWH - 60],
             'iat': [NOWH, NOWH - 14400, NOWH - 14401, NOWH - 60, NOWH + 30], 'nonce': ['a', 'b'], 'sub': ['s'],
             'birthdate': ['2000-02-29', '1999', '0000-01-31', 'x'], 'error_description': ['ok', 'a"b']}


def idtoken_kw(h):
    return h.kwargs('kw', opt={'iss': h.str('kiss', hint=['a', 'https://op.example.org']),
                               'client_id': h.str('kclient_id', hint=['a', 'b']),
                               'skew': h.int('kskew', hint=[0, 1, 60]),
                               'nonce_storage_time': h.int('kstore', hint=[60, 14400]),
                               'nonce': h.str('knonce', hint=['a', 'b'])}, others=True)


def idtoken_rules(h, m, kw):
    """the rules of P01 as (violation, error class), over the claims m and the caller's kw"""
    has, get, A, N = h.has, h.get, h.And, h.Not
    aud = get(m, 'aud')
    skew = h.getdef(kw, 'skew', 0)
    store = h.getdef(kw, 'nonce_storage_time', 4 * 3600)
    now = h.now()
    exp, iat = get(m, 'exp'), get(m, 'iat')
    return {
        'issuer differs from the expected one': (A(has(kw, 'iss'), has(m, 'iss'), N(h.eq(get(kw, 'iss'), get(m, 'iss')))),
                                                 X.IssuerMismatch),
        'client is not in the audience': (A(has(kw, 'client_id'), has(m, 'aud'), N(h.mem(get(kw, 'client_id'), aud))),
                                          X.NotForMe),
        'several audiences without authorized party': (A(has(m, 'aud'), h.lt(1, h.len(aud)), N(has(m, 'azp'))),
                                                       X.VerificationError),
        'authorized party is not an audience': (A(has(m, 'aud'), h.lt(1, h.len(aud)), has(m, 'azp'),
                                                  N(h.mem(get(m, 'azp'), aud))), X.VerificationError),
        'authorized party is another client': (A(has(m, 'azp'), has(kw, 'client_id'),
                                                 N(h.eq(get(kw, 'client_id'), get(m, 'azp')))), X.NotForMe),
        'expired': (h.lt(exp, h.minus(now, skew)), oi.EXPError),
        'issued too long ago': (h.lt(h.plus(iat, store), h.minus(now, skew)), oi.IATError),
        'nonce differs from the expected one': (A(has(kw, 'nonce'), has(m, 'nonce'),
                                                  N(h.eq(get(kw, 'nonce'), get(m, 'nonce')))), ValueError),
    }


class IdTokenVerify(Contract):
    """IdToken.verify: the claims rules; nothing changes.  Used at call sites in verify_id_token."""
    name = 'IdToken.verify'

    def applies(self, I_, args, kw):
        return len(args) == 1 and isinstance(args[0], HObj) and issubclass(args[0].cls, oi.IdToken) \
            and args[0].attrs['_dict'].welltyped is not None

    def pre(self, I_, h, args, kw):
        st = St()
        st.m, st.kw = args[0], kw
        return st

    def outcomes(self, I_, h, st):
        return ['ok', AnyExc]

    def result(self, I_, h, st):
        return True

    def clauses(self, h, st, out):
        if out != 'ok':
            return []
        missing, bad = base_violations(h, st.m, oi.IdToken)
        return [('required claims present', h.Not(missing)), ('only allowed values', h.Not(bad))] + \
            [('not: ' + n, h.Not(v)) for n, (v, _) in idtoken_rules(h, st.m, st.kw).items()]

    def fn(self):
        return oi.IdToken.verify

    @staticmethod
    def refusals(h, pre, kw):
        missing, bad = base_violations(h, pre, oi.IdToken)
        out = [(missing, X.MissingRequiredAttribute), (bad, X.NotAllowedValue),
               (bad_error_text(h, pre), (ValueError, TypeError)),
               (bad_birthdate(h, pre), (X.VerificationError, TypeError))]
        return out + list(idtoken_rules(h, pre, kw).values())

    @classmethod
    def check(cls, h, pre, m, kw, r):
        missing, bad = base_violations(h, pre, oi.IdToken)
        if r.ok:
            h.cover('accept')
            h.check('accepted => required claims present', h.Not(missing))
            h.check('accepted => only allowed values', h.Not(bad))
            for n, (v, _) in idtoken_rules(h, pre, kw).items():
                h.check('accepted => not: ' + n, h.Not(v))
            h.check('accepted => returns True', h.is_true(r.val))
        else:
            h.cover('refuse ' + r.exc.__name__)
            # every refusal has a reason, and the error names it
            why = [v for v, e in cls.refusals(h, pre, kw) if issubclass(r.exc, e)]
            h.check('refused with %s => a rule with that error is violated' % r.exc.__name__, h.Or(*why))
        h.check('claims unchanged', h.unchanged(pre, m))


def decide(h, r, rules, extra=(), ret=True):
    """accepted => no rule is violated; refused => a rule with that error is.
    rules: {name: (violation, error classes)}; extra: (violation, error classes) that the
    statement of the property leaves open (they may, but need not, be refused)"""
    if r.ok:
        h.cover('accept')
        for n, (v, _) in rules.items():
            h.check('accepted => not: ' + n, h.Not(v))
        if ret:
            h.check('accepted => returns True', h.is_true(r.val))
    else:
        h.cover('refuse ' + r.exc.__name__)
        why = [v for v, e in list(rules.values()) + list(extra) if issubclass(r.exc, e)]
        h.check('refused with %s => a rule with that error is violated' % r.exc.__name__, h.Or(*why))


def base_rules(h, m, cls):
    missing, bad = base_violations(h, m, cls)
    return {'a required parameter is missing': (missing, X.MissingRequiredAttribute),
            'a value is not allowed': (bad, X.NotAllowedValue)}


def prove_base(prop, cls):
    """the callee contract, proved again for this class"""
    @obligation(prop, 'Message.verify[%s]' % cname(cls))
    def ob(h):
        MessageVerify().prove(h, h.message('m', cls, welltyped=False))
