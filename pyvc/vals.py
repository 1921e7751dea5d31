"""Value sort and smart constructors of the verification conditions.

Every Python value the code under proof can meet is a term of the z3 datatype
``Val``.  Containers that come from outside are immutable mathematical values
named by an integer id; their contents are given by uninterpreted functions
(``llen/lnth`` for lists, ``dhas/dget/dlen`` for mappings), so nothing bounds
their size.  Containers the code itself builds or mutates live on the
interpreter's heap (heap.py).
"""
import z3

_V = z3.Datatype('Val')
_V.declare('None_')
_V.declare('Bool_', ('b', z3.BoolSort()))
_V.declare('Int_', ('i', z3.IntSort()))
_V.declare('Flt_', ('r', z3.RealSort()))
_V.declare('Str_', ('s', z3.StringSort()))
_V.declare('Byt_', ('y', z3.StringSort()))
_V.declare('List_', ('l', z3.IntSort()))
_V.declare('Dict_', ('d', z3.IntSort()))
_V.declare('Msg_', ('m', z3.IntSort()))
_V.declare('Obj_', ('o', z3.IntSort()))
Val = _V.create()

KINDS = ['None_', 'Bool_', 'Int_', 'Flt_', 'Str_', 'Byt_', 'List_', 'Dict_', 'Msg_', 'Obj_']
ACC = {'Bool_': Val.b, 'Int_': Val.i, 'Flt_': Val.r, 'Str_': Val.s, 'Byt_': Val.y,
       'List_': Val.l, 'Dict_': Val.d, 'Msg_': Val.m, 'Obj_': Val.o}
CON = {k: getattr(Val, k) for k in KINDS}
REC = {k: getattr(Val, 'is_' + k) for k in KINDS}
_CON_NAMES = set(KINDS)

I = z3.IntSort()
B = z3.BoolSort()
S = z3.StringSort()
llen = z3.Function('llen', I, I)
lnth = z3.Function('lnth', I, I, Val)
lhas = z3.Function('lhas', I, Val, B)
lidx = z3.Function('lidx', I, Val, I)
dlen = z3.Function('dlen', I, I)
dhas = z3.Function('dhas', I, Val, B)
dget = z3.Function('dget', I, Val, Val)
dkey = z3.Function('dkey', I, I, Val)
didx = z3.Function('didx', I, Val, I)
mcls = z3.Function('mcls', I, I)          # class code of an opaque message value
mdict = z3.Function('mdict', I, I)        # its mapping id
EQL = z3.Function('EQL', Val, Val, B)     # structural equality of distinct containers
OTR = z3.Function('OTR', I, B)            # truthiness of other objects

T = z3.BoolVal(True)
F = z3.BoolVal(False)


def is_z(x):
    return isinstance(x, z3.AstRef)


def Not(a):
    if a is True or a is False:
        return not a
    if z3.is_true(a):
        return False
    if z3.is_false(a):
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def _norm(a):
    if a is True or a is False:
        return a
    if z3.is_true(a):
        return True
    if z3.is_false(a):
        return False
    return a


def And(*xs):
    out = []
    seen = set()
    for x in xs:
        x = _norm(x)
        if x is True:
            continue
        if x is False:
            return False
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    seen = set()
    for x in xs:
        x = _norm(x)
        if x is False:
            continue
        if x is True:
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Imp(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a = _norm(a)
    b = _norm(b)
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return Not(b)
    if b is False:
        return Not(a)
    return a == b


def Ite(c, a, b):
    c = _norm(c)
    if c is True:
        return a
    if c is False:
        return b
    if is_z(a) and is_z(b) and a.eq(b):
        return a
    return z3.If(c, a, b)


def BIte(c, a, b):
    """if-then-else on formulas (python bools allowed)"""
    c = _norm(c)
    if c is True:
        return a
    if c is False:
        return b
    a = _norm(a)
    b = _norm(b)
    if a is True and b is True:
        return True
    if a is False and b is False:
        return False
    if a is True:
        return Or(c, b)
    if a is False:
        return And(Not(c), b)
    if b is True:
        return Or(Not(c), a)
    if b is False:
        return And(c, a)
    return z3.If(c, a, b)


def zb(x):
    if x is True:
        return T
    if x is False:
        return F
    return x


def con_of(t):
    """Constructor name when t is syntactically a constructor application."""
    if z3.is_app(t):
        n = t.decl().name()
        if n in _CON_NAMES and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return n
    return None


def is_kind(t, *kinds):
    c = con_of(t)
    if c is not None:
        return c in kinds
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return BIte(t.arg(0), is_kind(t.arg(1), *kinds), is_kind(t.arg(2), *kinds))
    return Or(*[REC[k](t) for k in kinds])


def acc(kind, t):
    c = con_of(t)
    if c == kind:
        return t.arg(0)
    return ACC[kind](t)


def Eq(a, b):
    """z3 equality with shortcuts for terms of one sort"""
    if a.eq(b):
        return True
    if z3.is_string_value(a) and z3.is_string_value(b):
        return a.as_string() == b.as_string()
    if z3.is_int_value(a) and z3.is_int_value(b):
        return a.as_long() == b.as_long()
    ca, cb = (con_of(a), con_of(b)) if a.sort() == Val else (None, None)
    if ca and cb:
        if ca != cb:
            return False
        if ca == 'None_':
            return True
        return Eq(a.arg(0), b.arg(0))
    return a == b


NONE = Val.None_


def VStr(s):
    return Val.Str_(z3.StringVal(s) if isinstance(s, str) else s)


def VInt(i):
    return Val.Int_(z3.IntVal(i) if isinstance(i, int) else i)


def VBool(b):
    return Val.Bool_(zb(b))


def is_num(t):
    return is_kind(t, 'Int_', 'Bool_', 'Flt_')


def num(t):
    """numeric payload as Real (meaningful when is_num)"""
    c = con_of(t)
    if c == 'Int_':
        a = t.arg(0)
        if z3.is_int_value(a):
            return z3.RealVal(a.as_long())
        return z3.ToReal(a)
    if c == 'Flt_':
        return t.arg(0)
    if c == 'Bool_':
        return z3.If(t.arg(0), z3.RealVal(1), z3.RealVal(0))
    return z3.If(Val.is_Int_(t), z3.ToReal(Val.i(t)),
                 z3.If(Val.is_Flt_(t), Val.r(t),
                       z3.If(Val.b(t), z3.RealVal(1), z3.RealVal(0))))


def intval(t):
    """integer payload of int-or-bool"""
    c = con_of(t)
    if c == 'Int_':
        return t.arg(0)
    if c == 'Bool_':
        return z3.If(t.arg(0), z3.IntVal(1), z3.IntVal(0))
    return z3.If(Val.is_Int_(t), Val.i(t), z3.If(Val.b(t), z3.IntVal(1), z3.IntVal(0)))


def py_eq(a, b):
    """Python == on two Val terms (containers: EQL is uninterpreted, reflexive)."""
    if a.eq(b):
        return True
    ca, cb = con_of(a), con_of(b)
    if cb and not ca:
        a, b, ca, cb = b, a, cb, ca
    NUM = ('Int_', 'Bool_', 'Flt_')
    if ca:
        if ca in ('None_', 'Str_', 'Byt_'):
            return Eq(a, b)
        if ca in NUM:
            if cb:
                if cb not in NUM:
                    return False
                if ca == cb:
                    return Eq(a.arg(0), b.arg(0))
            return And(is_num(b), num(a) == num(b))
        if ca in ('List_', 'Dict_', 'Msg_', 'Obj_'):
            if cb:
                if ca != cb:
                    return False
            return And(is_kind(b, ca), Or(Eq(a, b), EQL(a, b)))
    return z3.If(zb(And(is_num(a), is_num(b))), num(a) == num(b),
                 z3.Or(a == b,
                       z3.And(z3.Or(z3.And(Val.is_List_(a), Val.is_List_(b)),
                                    z3.And(Val.is_Dict_(a), Val.is_Dict_(b)),
                                    z3.And(Val.is_Msg_(a), Val.is_Msg_(b)),
                                    z3.And(Val.is_Obj_(a), Val.is_Obj_(b))),
                              EQL(a, b))))


def truthy(t):
    c = con_of(t)
    if c == 'None_':
        return False
    if c == 'Bool_':
        return _norm(t.arg(0))
    if c == 'Int_':
        a = t.arg(0)
        return Not(Eq(a, z3.IntVal(0)))
    if c == 'Flt_':
        return t.arg(0) != 0
    if c in ('Str_', 'Byt_'):
        a = t.arg(0)
        if z3.is_string_value(a):
            return len(a.as_string()) > 0
        return z3.Not(a == z3.StringVal(''))
    if c == 'List_':
        return llen(t.arg(0)) > 0
    if c == 'Dict_':
        return dlen(t.arg(0)) > 0
    if c == 'Msg_':
        return dlen(mdict(t.arg(0))) > 0
    if c == 'Obj_':
        return OTR(t.arg(0))
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return BIte(t.arg(0), truthy(t.arg(1)), truthy(t.arg(2)))
    return z3.If(Val.is_None_(t), F,
           z3.If(Val.is_Bool_(t), Val.b(t),
           z3.If(Val.is_Int_(t), Val.i(t) != 0,
           z3.If(Val.is_Flt_(t), Val.r(t) != 0,
           z3.If(Val.is_Str_(t), Val.s(t) != z3.StringVal(''),
           z3.If(Val.is_Byt_(t), Val.y(t) != z3.StringVal(''),
           z3.If(Val.is_List_(t), llen(Val.l(t)) > 0,
           z3.If(Val.is_Dict_(t), dlen(Val.d(t)) > 0,
           z3.If(Val.is_Msg_(t), dlen(mdict(Val.m(t))) > 0,
                 OTR(Val.o(t)))))))))))


class SV:
    """Symbolic value of the interpreted program."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SV(%s)' % (str(self.t)[:80],)


class SB:
    """Symbolic bool of the interpreted program."""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'SB(%s)' % (str(self.b)[:80],)


def mkbool(f):
    f = _norm(f)
    if f is True or f is False:
        return f
    return SB(f)


def mkstr(z):
    """SV or concrete str from a z3 string term"""
    if z3.is_string_value(z):
        return z3str(z)
    return SV(Val.Str_(z))


def z3str(z):
    """python str of a z3 string literal"""
    s = z.as_string()
    if '\\u' not in s:
        return s
    out = []
    i = 0
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def mkint(z):
    if isinstance(z, int):
        return z
    if z3.is_int_value(z):
        return z.as_long()
    return SV(Val.Int_(z))


def subst(f, sub):
    if isinstance(f, bool) or not sub:
        return f
    return z3.substitute(f, *sub)


def forall(vs, body):
    body = _norm(body)
    if isinstance(body, bool):
        return body
    return z3.ForAll(list(vs), body)


def exists(vs, body):
    body = _norm(body)
    if isinstance(body, bool):
        return body
    return z3.Exists(list(vs), body)


def BIte2(c, n):
    """n if c else 0 (int)"""
    if c is True:
        return n
    if c is False:
        return 0
    return z3.If(c, z3.IntVal(n), z3.IntVal(0))


def exposed(stmts, name):
    """may the body read `name` before it certainly assigned it?"""
    import ast as A

    def reads(n):
        return any(isinstance(x, A.Name) and x.id == name and isinstance(x.ctx, A.Load)
                   for x in A.walk(n))

    def stores(n):
        return any(isinstance(x, A.Name) and x.id == name and isinstance(x.ctx, A.Store)
                   for x in A.walk(n))

    # returns (exposed, definitely assigned)
    def seq(ss):
        for s in ss:
            e, d = one(s)
            if e:
                return True, False
            if d:
                return False, True
        return False, False

    def one(s):
        if isinstance(s, A.Assign):
            if reads(s.value) or any(reads(t) for t in s.targets):
                return True, False
            return False, any(stores(t) for t in s.targets)
        if isinstance(s, A.AugAssign):
            if isinstance(s.target, A.Name) and s.target.id == name:
                return True, False
            return reads(s), False
        if isinstance(s, A.If):
            if reads(s.test):
                return True, False
            e1, d1 = seq(s.body)
            e2, d2 = seq(s.orelse)
            return e1 or e2, d1 and d2
        if isinstance(s, A.For):
            if reads(s.iter):
                return True, False
            if stores(s.target):
                return False, False if reads_after(s) else False
            e1, _ = seq(s.body)
            e2, _ = seq(s.orelse)
            return e1 or e2, False
        if isinstance(s, A.Try):
            e1, d1 = seq(s.body)
            # a handler may run with the body's assignment not done
            eh = any(seq(h.body)[0] for h in s.handlers)
            dh = all(seq(h.body)[1] or ends(h.body) for h in s.handlers)
            eo, do = seq(s.orelse)
            if eo and not d1:
                e1 = True
            ef, df = seq(s.finalbody)
            return e1 or eh or ef, (d1 or do) and dh or df
        if isinstance(s, (A.Raise, A.Return, A.Continue, A.Break)):
            return reads(s), not reads(s)
        return reads(s), False

    def ends(ss):
        return bool(ss) and isinstance(ss[-1], (A.Raise, A.Return, A.Continue, A.Break))

    def reads_after(s):
        return False
    return seq(stmts)[0]
