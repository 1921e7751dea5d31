"""P06: loading and assigning store only values of the declared type."""
from . import ghost
from .common import *
from .tokens import FromDict, loaded_dict, fresh_instance
from pyvc.contract import Contract, St
from pyvc.interp import AnyExc
from pyvc.heap import *
from pyvc.vals import *
import json
import z3

OWNFORM = ('time_stamp_deser', 'date_deser', 'json_deserializer', 'dict_deser')   # own conversions: P18; JSON texts


def dname(f):
    return getattr(f, '__name__', 'none') if f else 'none'


def typename(t):
    return '[%s]' % typename(t[0]) if isinstance(t, list) else t.__name__


def specs():
    """the distinct (type, deserializer, null allowed) of all message classes -> (class, parameter)"""
    out = {}
    for c in all_message_classes():
        for k, s in c.c_param.items():
            key = (typename(s[0]), dname(s[3]), s[4])
            out.setdefault(key, (c, k, s))
    return out


def typed(h, v, spec):
    """the value is of the declared type"""
    typ, deser, null = spec[0], spec[3], spec[4]
    if isinstance(typ, tuple):
        typ = typ[0]
    if isinstance(typ, list):
        e = typ[0]
        if e is str:
            ok = h.And(h.isk(v, 'list'), h.forall_elems(v, lambda x: h.isk(x, 'str')))
        else:
            ok = h.And(h.isk(v, 'list'), h.forall_elems(v, lambda x: h.isk(x, 'msg')))
        return h.Or(ok, h.And(h.isnone(v), null)) if null is not False else ok
    if typ is str:
        ok = h.isk(v, 'str')
    elif typ is int:
        ok = h.isk(v, 'int')
    elif typ is bool:
        ok = h.isk(v, 'bool')
    elif isinstance(typ, type) and issubclass(typ, Message):
        ok = h.isk(v, 'msg', 'dict', 'str') if deser is None else h.isk(v, 'msg')
    else:
        return True
    return h.Or(ok, h.isnone(v))


VALS = ['a', '', 'a b', 1, 0, True, False, None, [], [''], ['a'], ['a', 'b'], ['a', 1], ['a b'], [None], [1], {'a': 'b'}, {}, '5', 'x', 2.5,
        [{'a': 'b'}], [{}], '{"a": "b"}', 'a=b', 'tröt', ['a', None], [['a']], b'ab', '{}', '[]', '{"rel": "a"}', {'rel': 'x', 'href': 'y'},
        [{'rel': 'x'}, 'z'], [{'type': 'qes'}], {'type': 1}]


def rndval(r):
    x = r.choice(VALS)
    if r.random() < .15:
        m = r.choice([Message, oi.Claims, oi.AddressClaim, ida.Evidence, ida.Document, oi.Link, ida.Verifier])()
        m._dict['a'] = 'b'
        x = m if r.random() < .5 else [m]
    return x


class Deserialize(Contract):
    """deserialize of a fresh message: the message itself, filled in, or an exception"""
    name = 'Message.deserialize'
    raises = (X.FormatError, AnyExc)
    assumed = 'contract of Message.deserialize on fresh messages (assumed): returns that message or raises'

    def fn(self):
        return Message.deserialize

    def applies(self, I_, args, kw):
        return isinstance(args[0], HObj) and fresh_instance(args[0])

    def pre(self, I_, h, args, kw):
        st = St()
        st.m = args[0]
        return st

    def havoc(self, I_, h, st):
        d = h.c.fresh('loaded', I)
        h.strkeys(d)
        I_.setattr_(st.m, '_dict', HDict(base=d))

    def result(self, I_, h, st):
        return st.m

    def clauses(self, h, st, out):
        return []


class OneOf(Contract):
    """deserialize_from_one_of: a message of the class asked for, or an exception"""
    name = 'oidc.deserialize_from_one_of'
    raises = (X.FormatError, AnyExc)

    def fn(self):
        return oi.deserialize_from_one_of

    def applies(self, I_, args, kw):
        return len(args) == 3 and isinstance(args[1], type) and issubclass(args[1], Message)

    def pre(self, I_, h, args, kw):
        st = St()
        st.cls = args[1]
        return st

    def result(self, I_, h, st):
        m = I_.instantiate(st.cls, [], {})
        d = h.c.fresh('loaded', I)
        h.strkeys(d)
        I_.setattr_(m, '_dict', HDict(base=d))
        return m

    def clauses(self, h, st, out):
        return []


def one_of(cls):
    def ob(h):
        v = h.val('value', hint=rndval)
        r = h.call(oi.deserialize_from_one_of, v, cls, h.pick('format', ['dict', 'json', 'urlencoded']))
        if r.ok:
            h.cover('loaded')
            h.check('a message of the class asked for', h.isinst(r.val, cls))
    return ob


for c in (oi.AddressClaim, oi.Claims, oi.RegistrationRequest, ida.Document, ida.Evidence, ida.VerificationElementRequest):
    obligation('P06', 'deserialize_from_one_of[%s]' % cname(c), need=('loaded',), contracts=[Deserialize()])(one_of(c))


def add_value(cls, par, spec):
    def ob(h):
        m = h.message('m', cls, welltyped=False)
        key = h.str('key', hint=[par, par + '#sv'])
        v = h.val('value', hint=rndval)
        pre = h.snap(m)
        r = h.call((m, '_add_value'), key, spec[0], key, v, spec[3], spec[4])
        h.check('nothing else changes', h.unchanged(pre, m, key))
        if r.ok:
            h.cover('stored')
            empty = h.And(h.isk(v, 'list'), h.Or(h.Not(h.truthy(v)), h.exists_elems(v, h.isnone)))
            h.check('stored, of the declared type (unless an empty list, or one that holds a null, was given)',
                    h.Or(empty, h.And(h.has(m, key), typed(h, h.get(m, key), spec))))
            h.check('stored => of the declared type', h.Or(h.has(pre, key), h.Not(h.has(m, key)), typed(h, h.get(m, key), spec)))
        else:
            h.check('an error leaves the message unchanged', h.unchanged(pre, m))
    return ob


for (t, d, n), (c, k, s) in sorted(specs().items(), key=str):
    if d not in OWNFORM:
        obligation('P06', '_add_value[%s,%s%s]' % (t, d, ',null' if n else ''), need=('stored',),
                   contracts=[Deserialize(), FromDict(), OneOf()])(add_value(c, k, s))


class AddValue(Contract):
    """Message._add_value: stores the value under the key with the given type, leaves it out, or raises"""
    name = 'Message._add_value'

    def fn(self):
        return Message._add_value

    def applies(self, I_, args, kw):
        return len(args) == 7 and isinstance(args[0], HObj)

    def pre(self, I_, h, args, kw):
        st = St()
        st.m, st.skey, st.typ, st.key, st.val, st.deser, st.null = args
        return st

    def outcomes(self, I_, h, st):
        return [True, False, X.DecodeError, ValueError, OverflowError]

    def havoc(self, I_, h, st):
        if st.outcome is True:
            st.new = SV(h.c.fresh('stored', Val))
            I_.dset(st.m.attrs['_dict'], st.skey, st.new)

    def clauses(self, h, st, out):
        if out is True:
            n = h.is_true(st.null)
            return [('of the declared type', h.g(lambda t: h.g(lambda d: h.And(
                h.Imp(n, opaque_typed(h, st.new, t, d, True)), h.Imp(h.Not(n), opaque_typed(h, st.new, t, d, False))),
                st.deser), st.typ))]
        return []


TYPED = {}


def opaque_typed(h, v, typ, deser, null):
    """opaque where _add_value is called; its meaning (typed) is proved of the body of _add_value"""
    if isinstance(typ, tuple):
        typ = typ[0]
    if dname(deser) in OWNFORM:
        return True
    if not h.sym:
        return typed(h, v, (typ, None, None, deser, null))
    n = 'typed_%s_%s_%s' % (typename(typ), 'raw' if deser is None else 'deser', bool(null))
    f = TYPED.setdefault(n, z3.Function(n, Val, z3.BoolSort()))
    return h.g(lambda x: f(h.I.term(x)), v)


def named(h, k, names, cls):
    """k is one of the names, or one of them with a language tag"""
    return h.Or(h.mem(k, names), h.And(h.mem(h.before(k, '#'), names), h.Not(h.mem(k, [x for x in cls.c_param if x != '*']))))


def groups(cls):
    """declared parameters by type"""
    out = {}
    for n, s in cls.c_param.items():
        if n != '*' and dname(s[3]) not in OWNFORM:
            out.setdefault((typename(s[0]), dname(s[3]), s[4]), (s, []))[1].append(n)
    return out.values()


def from_dict(cls):
    def ob(h):
        m = h.newmessage(cls)
        d = h.dict('d')
        r = h.call((m, 'from_dict'), d)
        if r.ok:
            h.cover('loaded')
            h.check('the message itself is returned', h.ident(r.val, m))
            for s, ns in groups(cls):
                h.check('%s: declared type' % ', '.join(ns), h.forall_keys(m, lambda k: h.Imp(
                    named(h, k, ns, cls), opaque_typed(h, h.get(m, k), s[0], s[3], s[4]))))
            h.check('no parameter that was not in the input', h.forall_keys(m, lambda k: h.has(d, k)))
            h.check('parameters not declared are stored unchanged', h.forall_keys(m, lambda k: h.Or(
                named(h, k, list(cls.c_param), cls), '*' in cls.c_param, h.same(h.get(m, k), h.get(d, k)))))
    return ob


def distinct_classes():
    """one class for each set of declared parameters and implementation"""
    out = {}
    for c in all_message_classes():
        out.setdefault((tuple(sorted((k, repr(s)) for k, s in c.c_param.items())), id(c.from_dict), id(c.__setitem__)), c)
    return list(out.values())


for c in distinct_classes():
    obligation('P06', 'from_dict[%s]' % cname(c), need=('loaded',), contracts=[AddValue()])(from_dict(c))



def setitem(cls):
    def ob(h):
        m = h.message('m', cls, welltyped=False)
        key = h.str('key', hint=list(cls.c_param)[:6] + ['x', 'scope#sv'])
        v = h.val('value', hint=rndval)
        pre = h.snap(m)
        r = h.call((m, '__setitem__'), key, v)
        if r.ok:
            h.cover('assigned')
            h.check('nothing else changes', h.unchanged(pre, m, key))
            names = [x for x in cls.c_param if x != '*']
            kept = h.And(h.Iff(h.has(m, key), h.has(pre, key)), h.Or(h.Not(h.has(m, key)), h.same(h.get(m, key), h.get(pre, key))))
            for s, ns in groups(cls):
                h.check('%s: declared type' % ', '.join(ns), h.Imp(
                    h.mem(key, ns), h.Or(kept, h.And(h.has(m, key), opaque_typed(h, h.get(m, key), s[0], s[3], s[4])))))
            h.check('a parameter not declared is stored unchanged', h.Imp(
                h.Not(h.mem(key, names)), h.And(h.has(m, key), h.same(h.get(m, key), v))))
        else:
            h.check('an error leaves the message unchanged', h.unchanged(pre, m))
    return ob


for c in distinct_classes():
    obligation('P06', '__setitem__[%s]' % cname(c), need=('assigned',), contracts=[AddValue()])(setitem(c))


def construct(cls):
    def ob(h):
        kw = h.kwargs('kw', others=True, exclude=('set_defaults', 'self'))
        r = h.call(ghost.build, cls, kw)
        if r.ok:
            h.cover('built')
            m = r.val
            dflt = h.mkdict(dict(cls.c_default))
            h.check('no parameter that was neither given nor has a default', h.forall_keys(m, lambda k: h.Or(h.has(kw, k), h.has(dflt, k))))
            for n, v in cls.c_default.items():
                if n in cls.c_param:
                    s = cls.c_param[n]
                    h.check('default of %s has the declared type' % n, typed(h, v, s))
    return ob


for c in all_message_classes():
    if c.c_default:
        obligation('P06', 'construct[%s]' % cname(c), need=('built',), contracts=[AddValue()])(construct(c))


@obligation('P06', 'from_json', need=('loaded',), contracts=[FromDict()])
def from_json(h):
    m = h.newmessage(Message)
    t = h.str('text', hint=['{"a": 1}', '{}', '[]', '1', 'x', '{"a": {"b": []}}'])
    r = h.call((m, 'from_json'), t)
    if r.ok:
        h.cover('loaded')
        h.check('the message itself is returned', h.ident(r.val, m))
        j = h.call(json.loads, t)
        h.check('what is loaded is the content of the text', j.ok and (
            h.same(h.attr(m, '#loaded'), j.val) if h.sym else h.same(m._dict, {k: v for k, v in j.val.items() if v not in ['', ['']]})))


@obligation('P06', 'deserialize[json]', need=('loaded',), contracts=[FromDict()])
def deser_json(h):
    m = h.newmessage(Message)
    t = h.val('text', 'str', hint=['{"a": 1}', '{}', '[]', '1', 'x'])
    r = h.call((m, 'deserialize'), t, 'json')
    if r.ok:
        h.cover('loaded')
        h.check('the message itself is returned', h.ident(r.val, m))
