"""P16: messages behave as mappings; housekeeping touches only what it names."""
from .common import *
from . import ghost as G
from pyvc.contract import Contract
import z3
from pyvc.vals import Val, S, B, I as IS
from pyvc.ctx import Unsupported

KEYS = ['extra', 'foo#sv', 'x', 'state', 'scope', 'iss', 'client_id', 'response_type', 'redirect_uris']
UEOK = z3.Function('urlencodes', IS, IS, B)
UENC = z3.Function('urlencoded', IS, IS, S)


class ToUrlencoded(Contract):
    """some text that depends on class and content only, or an exception; the message is unchanged"""
    name = 'Message.to_urlencoded: any text determined by the content, or any exception; changes nothing'
    assumed = 'contract of Message.to_urlencoded (assumed): the text is a function of class and content, nothing changes'

    def fn(self):
        return Message.to_urlencoded

    def pre(self, I_, h, args, kw):
        from pyvc.contract import St
        st = St()
        m = args[0]
        d = m.attrs['_dict']
        if d.base is None or d.lay:
            raise Unsupported('to_urlencoded of a changed message')
        code = [k for k, c in I_.class_codes.items() if c is m.cls][0]
        st.k = (d.base, z3.IntVal(code))
        return st

    raises = (ValueError,)

    def result(self, I_, h, st):
        from pyvc.vals import SV
        return SV(Val.Str_(UENC(*st.k)))

    def clauses(self, h, st, out):
        yield 'when', UEOK(*st.k) if out == 'ok' else h.Not(UEOK(*st.k))


def keys_of(h, lst, d):
    """the list holds exactly the keys of d, each once"""
    return h.And(h.isk(lst, 'list'), h.forall_elems(lst, lambda e: h.has(d, e)),
                 h.forall_keys(d, lambda k: h.mem(k, lst)), h.iseq(h.len(lst), h.len(d)))


def ok(h, r, f):
    return f() if r.ok else False


def mapping(cls):
    def ob(h):
        m = h.message('m', cls)
        k = h.str('key', hint=KEYS)
        dflt = h.val('dflt', 'str', 'int', 'none', 'bool')
        pre = h.snap(m)
        there = h.has(pre, k)
        v = h.get(pre, k)
        op = h.pick('op', ['iter', 'keys', 'items', 'values', 'len', 'in', 'getitem', 'get', 'get2'])
        if op == 'iter':
            r = h.call(G.it, m)
            h.check('iterating gives the stored keys', ok(h, r, lambda: keys_of(h, r.val, pre)))
        elif op == 'keys':
            r = h.call(G.keys, m)
            h.check('keys() gives the stored keys', ok(h, r, lambda: keys_of(h, r.val, pre)))
        elif op == 'items':
            r = h.call(G.items, m)
            h.check('items() gives the stored parameters', ok(h, r, lambda: h.And(h.isk(r.val, 'dict'), h.unchanged(pre, r.val))))
        elif op == 'values':
            r = h.call(G.values, m)
            h.check('values() gives the stored values', ok(h, r, lambda: h.And(
                h.isk(r.val, 'list'), h.iseq(h.len(r.val), h.len(pre)),
                h.Imp(there, h.exists_elems(r.val, lambda e: h.ident(e, v))),
                h.forall_elems(r.val, lambda e: h.Not(h.forall_keys(pre, lambda q: h.Not(h.ident(h.get(pre, q), e))))))))
        elif op == 'len':
            r = h.call(G.ln, m)
            h.check('the number of parameters', ok(h, r, lambda: h.eq(r.val, h.count(pre))))
        elif op == 'in':
            r = h.call(G.isin, m, k)
            h.check('testing agrees', ok(h, r, lambda: h.And(h.Imp(there, h.is_true(r.val)), h.Imp(h.Not(there), h.is_false(r.val)))))
        elif op == 'getitem':
            r = h.call(G.getitem, m, k)
            h.check('a stored value is read, only an absent key raises KeyError',
                    h.And(there, h.ident(r.val, v)) if r.ok else h.And(h.Not(there), r.raised(KeyError)))
        elif op == 'get':
            r = h.call((m, 'get'), k)
            h.check('get', ok(h, r, lambda: h.And(h.Imp(there, h.ident(r.val, v)), h.Imp(h.Not(there), h.isnone(r.val)))))
        else:
            r = h.call((m, 'get'), k, dflt)
            h.check('get with default', ok(h, r, lambda: h.And(h.Imp(there, h.ident(r.val, v)),
                                                              h.Imp(h.Not(there), h.ident(r.val, dflt)))))
        h.check('reading changes nothing', h.unchanged(pre, m))
    return ob


def deleting(cls):
    def ob(h):
        m = h.message('m', cls)
        k = h.str('key', hint=KEYS)
        dflt = h.val('dflt', 'str', 'int', 'none', 'bool')
        pre = h.snap(m)
        there = h.has(pre, k)
        op = h.pick('op', ['del', 'pop', 'pop default'])
        if op == 'del':
            r = h.call(G.delitem, m, k)
        elif op == 'pop':
            r = h.call(G.pop, m, k)
        else:
            r = h.call(G.pop2, m, k, dflt)
        if r.ok:
            if op == 'pop default':
                h.check('value or default', h.And(h.Imp(there, h.ident(r.val, h.get(pre, k))),
                                                  h.Imp(h.Not(there), h.ident(r.val, dflt))))
            else:
                h.check('was there', there)
                if op == 'pop':
                    h.check('value', h.ident(r.val, h.get(pre, k)))
            h.check('gone', h.Not(h.has(m, k)))
            h.check('the others are kept', h.unchanged(pre, m, k))
        else:
            h.check('only an absent key raises KeyError', h.And(h.Not(there), r.raised(KeyError)))
            h.check('nothing changed', h.unchanged(pre, m))
    return ob


def declared(h, cls, k):
    return h.mem(k, list(cls.c_param))


def housekeeping(cls):
    def ob(h):
        m = h.message('m', cls)
        pre = h.snap(m)
        op = h.pick('op', ['weed', 'rm_blanks', 'extra', 'only_extras', 'set_defaults', 'by_schema'])
        if op == 'weed':
            r = h.call((m, 'weed'))
            h.check('exactly the declared parameters are left', ok(h, r, lambda: h.forall_anykey(lambda k: h.And(
                h.Iff(h.has(m, k), h.And(h.has(pre, k), declared(h, cls, k))),
                h.Imp(h.has(m, k), h.ident(h.get(m, k), h.get(pre, k)))))))
        elif op == 'rm_blanks':
            r = h.call((m, 'rm_blanks'))
            h.check('exactly the non-empty parameters are left', ok(h, r, lambda: h.forall_anykey(lambda k: h.And(
                h.Iff(h.has(m, k), h.And(h.has(pre, k), h.truthy(h.get(pre, k)))),
                h.Imp(h.has(m, k), h.ident(h.get(m, k), h.get(pre, k)))))))
        elif op == 'extra':
            r = h.call((m, 'extra'))
            h.check('exactly the undeclared parameters', ok(h, r, lambda: h.forall_anykey(lambda k: h.And(
                h.Iff(h.has(r.val, k), h.And(h.has(pre, k), h.Not(declared(h, cls, k)))),
                h.Imp(h.has(r.val, k), h.ident(h.get(r.val, k), h.get(pre, k)))))))
            h.check('nothing changed', h.unchanged(pre, m))
        elif op == 'only_extras':
            r = h.call((m, 'only_extras'))
            h.check('true exactly without declared parameters', ok(h, r, lambda: h.And(h.isk(r.val, 'bool'), h.Iff(
                h.is_true(r.val), h.forall_keys(pre, lambda k: h.Not(declared(h, cls, k)))))))
            h.check('nothing changed', h.unchanged(pre, m))
        elif op == 'set_defaults':
            r = h.call((m, 'set_defaults'))
            h.check('given values stay, defaults are filled in', ok(h, r, lambda: h.And(
                h.unchanged(pre, m, *cls.c_default),
                *[h.ident(h.get(m, k), h.ite(h.has(pre, k), h.get(pre, k), v)) for k, v in cls.c_default.items()],
                *[h.has(m, k) for k in cls.c_default])))
        else:
            h.assume(h.Not(h.has(m, 'cls')))
            r = h.call(M.by_schema, cls, kw_=h.D(m))
            h.check('exactly the declared ones', ok(h, r, lambda: h.forall_anykey(lambda k: h.And(
                h.Iff(h.has(r.val, k), h.And(h.has(pre, k), declared(h, cls, k))),
                h.Imp(h.has(r.val, k), h.ident(h.get(r.val, k), h.get(pre, k)))))))
    return ob


def description(cls):
    """what the class says about itself"""
    def ob(h):
        m = h.message('m', cls)
        r = h.call((m, 'parameters'))
        ps = [p for p in cls.c_param]
        h.check('the known parameters', ok(h, r, lambda: h.And(
            h.forall_elems(r.val, lambda e: h.mem(e, ps)), *[h.mem(p, r.val) for p in ps],
            h.iseq(h.len(r.val), len(ps)))))
        r = h.call((m, 'required_parameters'))
        rq = [p for p, s in cls.c_param.items() if s[1]]
        h.check('the required parameters', ok(h, r, lambda: h.And(
            h.forall_elems(r.val, lambda e: h.mem(e, rq)), *[h.mem(p, r.val) for p in rq])))
        r = h.call((m, 'type'))
        h.check('the name of the type', ok(h, r, lambda: h.eq(r.val, cls.__name__)))
    return ob


def copying(cls):
    def ob(h):
        m = h.message('m', cls)
        k = h.str('key', hint=KEYS)
        v = h.val('v', 'str', 'int', 'none', 'bool', 'list')
        pre = h.snap(m)
        r = h.call((m, 'copy'))
        h.check('a copy is of the same type and has the same content', ok(h, r, lambda: h.And(
            h.isinst(r.val, cls), h.unchanged(pre, r.val))))
        if r.ok:
            h.check('nothing is shared', h.independent(m, r.val))
            e = h.call(G.eq, m, r.val)
            h.check('the copy is equal', ok(h, e, lambda: h.is_true(e.val)))
        h.check('the original is unchanged', h.unchanged(pre, m))
        if h.pick('then', ['set', 'drop']) == 'set':
            c = h.call(G.copy_then_set, m, k, v)
        else:
            c = h.call(G.copy_then_drop, m, k)
        h.check('changing the copy leaves the original alone', h.And(c.ok, h.unchanged(pre, m)))
    return ob


def updating(cls):
    def ob(h):
        m = h.message('m', cls)
        pre = h.snap(m)
        op = h.pick('item', ['dict', 'same', 'other', 'none', 'text', 'list'])
        if op == 'dict':
            it = h.dict('item')
        elif op == 'same':
            it = h.message('item', cls)
        elif op == 'other':
            it = h.message('item', Message)
        elif op == 'none':
            it = None
        elif op == 'text':
            it = h.str('item')
        else:
            it = h.val('item', 'list')
        r = h.call((m, 'update'), it)
        if op in ('none', 'text', 'list'):
            h.check('refused', r.raised(ValueError))
            h.check('nothing changed', h.unchanged(pre, m))
            return
        h.check('exactly the given keys changed', ok(h, r, lambda: h.forall_anykey(lambda k: h.And(
            h.Iff(h.has(m, k), h.Or(h.has(pre, k), h.has(it, k))),
            h.Imp(h.has(it, k), h.ident(h.get(m, k), h.get(it, k))),
            h.Imp(h.And(h.has(pre, k), h.Not(h.has(it, k))), h.ident(h.get(m, k), h.get(pre, k)))))))
    return ob


def requesting(cls):
    def ob(h):
        m = h.message('m', cls)
        loc = h.str('location', hint=['https://op.example.org/a', 'https://op.example.org/a?x=1', 'https://op/a#f', '', '?'])
        pre = h.snap(m)
        frag = h.pick('fragment', [None, False, True])
        enc = h.call((m, 'to_urlencoded'))
        r = h.call((m, 'request'), loc) if frag is None else h.call((m, 'request'), loc, frag)
        if r.ok:
            want = lambda sep: h.eq(r.val, h.concat(loc, sep, enc.val))
            h.check('address, separator, parameters', ok(h, enc, lambda: want('#') if frag else h.And(
                h.Imp(h.contains(loc, '?'), want('&')), h.Imp(h.Not(h.contains(loc, '?')), want('?')))))
        else:
            h.check('fails only when the parameters cannot be encoded', not enc.ok)
        h.check('the message is unchanged', h.unchanged(pre, m))
    return ob


for c in all_message_classes():
    n = cname(c)
    obligation('P16', 'mapping[%s]' % n)(mapping(c))
    obligation('P16', 'deleting[%s]' % n)(deleting(c))
    obligation('P16', 'housekeeping[%s]' % n)(housekeeping(c))
    obligation('P16', 'description[%s]' % n)(description(c))
    obligation('P16', 'copying[%s]' % n)(copying(c))
    obligation('P16', 'updating[%s]' % n)(updating(c))
    obligation('P16', 'request[%s]' % n, contracts=[ToUrlencoded()])(requesting(c))


@obligation('P16', 'add_non_standard')
def ans(h):
    c1, c2 = o2.AuthorizationRequest, oi.AuthorizationRequest
    a = h.message('a', c1)
    b = h.message('b', c2)
    pa, pb = h.snap(a), h.snap(b)
    r = h.call(M.add_non_standard, a, b)
    d1, d2 = list(c1.c_param), list(c2.c_param)
    add = lambda k: h.And(h.has(pb, k), h.Not(h.mem(k, d2)), h.Not(h.mem(k, d1)))
    h.check('exactly the parameters neither knows are taken over', ok(h, r, lambda: h.forall_anykey(lambda k: h.And(
        h.Iff(h.has(a, k), h.Or(h.has(pa, k), add(k))),
        h.Imp(add(k), h.ident(h.get(a, k), h.get(pb, k))),
        h.Imp(h.And(h.has(pa, k), h.Not(add(k))), h.ident(h.get(a, k), h.get(pa, k)))))))
    h.check('the source is unchanged', h.unchanged(pb, b))
