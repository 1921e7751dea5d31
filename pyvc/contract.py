"""Call-site use of contracts.

A Contract states, for a real function, the outcomes it may have and for each outcome a
list of (label, formula) clauses over the state before, the state after and the result.
The same clauses are *proved* of the body (obligation of the property that owns the
contract) and *assumed* where a function under proof calls it: the body is not looked at
there, everything in the frame is forgotten first."""
from .vals import *
from .ctx import PathEnd, Unsupported
from .heap import *
from .interp import Raise, UNDEF

ALL = {}


class St:
    """state of one call"""


class Contract:
    name = None
    raises = ()          # exception classes the function may end with
    ok = True            # it may return
    assumed = None       # what is taken for granted where the body is not proved against the contract

    def fn(self):
        raise NotImplementedError

    def applies(self, I_, args, kw):
        """can the contract be used for this call (otherwise the body is followed)"""
        return True

    def pre(self, I_, h, args, kw):
        """-> St with everything the clauses need; may add 'require' checks"""
        raise NotImplementedError

    def havoc(self, I_, h, st):
        """forget what the function may change"""

    def result(self, I_, h, st):
        return None

    def clauses(self, h, st, out):
        raise NotImplementedError

    def outcomes(self, I_, h, st):
        return (['ok'] if self.ok else []) + list(self.raises)

    def install(self, I_):
        fn = self.fn()
        key = id(fn)

        def handler(I2, args, kw):
            if not self.applies(I2, args, kw):
                # this call only: the body is followed, calls in it are looked at again
                I2.suppress[key] = 1
                return I2.callfn(fn, args, kw)
            I2.used_contracts.add(self.name)
            if self.assumed:
                I2.assumed.add(self.assumed)
            h = I2.spech
            st = self.pre(I2, h, args, kw)
            outs = self.outcomes(I2, h, st)
            o = outs[I2.c.choose(len(outs))]
            st.outcome = o
            okk = o in ('ok', True, False)
            if okk:
                self.havoc(I2, h, st)
                st.result = self.result(I2, h, st)
            else:
                self.havoc(I2, h, st)
            for lab, f in self.clauses(h, st, o):
                I2.c.assume(f)
            if not I2.c.feasible():
                raise PathEnd()
            if okk:
                return st.result
            I2.throw(o)
        I_.contracts[key] = handler

    def proved(self, h, st, out, must=True):
        """emit the clauses as verification conditions"""
        for lab, f in self.clauses(h, st, out):
            h.check(lab, f)
