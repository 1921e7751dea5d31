"""Concrete Python values from a solver model."""
import fractions
import z3

from .vals import *
from .ctx import lstr
from .harness import Skip
from .native import newmsg


class Conc:
    def __init__(self, h, model, maxlen=12):
        self.h = h
        self.I = h.I
        self.m = model
        self.apps = list(h.c.apps.values())
        self.byd = None
        self.strmap = {}
        self.maxlen = maxlen
        self.exts = {}
        self.left = 3000        # values read from the model: cyclic structures are cut off
        self.tokens = {}
        for f in getattr(self.I, 'realizers', []):
            f(self)

    def ev(self, t):
        return self.m.eval(t, model_completion=True)

    def isT(self, f):
        if isinstance(f, bool):
            return f
        return z3.is_true(self.ev(f))

    def index(self):
        if self.byd is not None:
            return
        self.byd, self.byl = {}, {}
        for a in self.apps:
            n = a.decl().name()
            if n in ('dhas', 'dget'):
                d = self.ev(a.arg(0)).as_long()
                self.byd.setdefault(d, {})[self.ev(a.arg(1)).sexpr()] = a.arg(1)
            elif n in ('lhas', 'lidx'):
                l = self.ev(a.arg(0)).as_long()
                self.byl.setdefault(l, []).append(a.arg(1))

    def string(self, z):
        v = self.ev(z)
        s = z3str(v)
        return self.strmap.get(s, s)

    def value(self, t, depth=0):
        t = self.ev(t)
        c = con_of(t)
        self.left -= 1
        if depth > 6 or c is None or self.left < 0:
            return None
        if c == 'None_':
            return None
        a = t.arg(0)
        if c == 'Bool_':
            return z3.is_true(a)
        if c == 'Int_':
            return a.as_long()
        if c == 'Flt_':
            if z3.is_algebraic_value(a):
                a = a.approx(10)
            return float(fractions.Fraction(a.numerator_as_long(), a.denominator_as_long()))
        if c == 'Str_':
            return self.string(a)
        if c == 'Byt_':
            return self.string(a).encode('utf-8')
        if c == 'List_':
            return self.list(a, depth)
        if c == 'Dict_':
            return self.dict(a, depth)
        if c == 'Msg_':
            return self.msg(a, depth)
        return self.objval(a)

    def objval(self, a):
        return None

    def dict(self, d, depth=0, pad=True):
        self.index()
        i = self.ev(d).as_long()
        out = {}
        for kt in self.byd.get(i, {}).values():
            if self.isT(dhas(z3.IntVal(i), kt)):
                k = self.value(kt, depth + 1)
                try:
                    out[k] = self.value(dget(z3.IntVal(i), kt), depth + 1)
                except TypeError:
                    pass
        n = self.ev(dlen(z3.IntVal(i))).as_long()
        j = 0
        while pad and len(out) < min(n, 3):
            out['pad%d' % j] = 'p'
            j += 1
        return out

    def list(self, l, depth=0):
        self.index()
        i = self.ev(l).as_long()
        n = self.ev(llen(z3.IntVal(i))).as_long()
        n = max(0, min(n, self.maxlen))
        strs = self.isT(lstr(z3.IntVal(i)))
        vals = []
        for j in range(n):
            v = self.value(lnth(z3.IntVal(i), z3.IntVal(j)), depth + 1)
            if strs and not isinstance(v, str):
                v = 'e%d' % j
            vals.append(v)
        for vt in self.byl.get(i, ()):
            if self.isT(lhas(z3.IntVal(i), vt)):
                v = self.value(vt, depth + 1)
                if v not in vals:
                    j = self.ev(lidx(z3.IntVal(i), vt)).as_long()
                    if 0 <= j < len(vals):
                        vals[j] = v
                    else:
                        vals.append(v)
        return vals

    def msg(self, a, depth=0):
        i = self.ev(a)
        code = self.ev(mcls(i)).as_long()
        cls = self.I.class_codes.get(code)
        if cls is None:
            import sys
            cls = sys.modules['oidcmsg.message'].Message
        return newmsg(cls, self.dict(self.ev(mdict(i)), depth + 1, pad=True))

    def inputs(self):
        out = {}
        from . import models
        if any(a.eq(models.CLOCK) for a in self.apps):
            x = self.ev(models.CLOCK)
            out['NOW'] = float(fractions.Fraction(x.numerator_as_long(), x.denominator_as_long()))
            if out['NOW'] == int(out['NOW']):
                out['NOW'] = int(out['NOW'])
        for name, kind, p in self.h.inputs:
            if kind == 'val':
                out[name] = self.value(p)
            elif kind == 'dict':
                out[name] = self.dict(p)
            elif kind == 'msg':
                out[name] = {k: v for k, v in self.dict(p[1]).items()}
            elif kind == 'kw':
                pay, base = p
                d = {}
                for k, (c, v) in pay.items():
                    if self.isT(c):
                        d[k] = True
                if base is not None:
                    for k, v in self.dict(base).items():
                        if isinstance(k, str) and k not in pay:
                            d[k] = v
                out[name] = d
            elif kind == 'const':
                out[name] = p
            elif kind == 'ext':
                out[name] = p[1](self, p[0])
        return out
