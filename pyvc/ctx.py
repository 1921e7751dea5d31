"""Proof context: path enumeration, hypotheses, lemma instantiation, undo trail.

A *path* is one control path of the function under proof.  ``branch`` asks the
solver which sides of a condition are possible under the hypotheses collected
so far and follows one side; the other sides are visited by re-execution.
``explore`` nests: loops and calls are explored on their own and their normal
outcomes merged into one (interp.py), so the number of paths stays small
without dropping any behaviour.

Universally quantified hypotheses never reach the solver as quantifiers.  They
become lemmas ``guard => body[x]`` that are instantiated at every key / index
term that occurs in the verification condition; an instance is always a
consequence of the hypothesis, so a refutation (unsat) stays valid.
"""
import time
import z3
from . import heap
from .vals import *
from .vals import _norm


class Unsupported(BaseException):
    """The construct is outside the verified subset."""


class PathEnd(BaseException):
    """The path is infeasible, or deliberately dropped."""


class Budget(BaseException):
    """A stated resource limit was hit."""


class Frame:
    """One path of an exploration.  `log` records the symbols, heap objects and nested
    explorations made on the path, so that the common prefix of two paths is replayed with
    the same identities and without exploring again."""
    __slots__ = ('prefix', 'dec', 'n', 'log', 'pos', 'decs')

    def __init__(self, prefix, log):
        self.prefix = prefix
        self.dec = []
        self.decs = []
        self.n = 0
        self.log = log
        self.pos = 0


class Outcome:
    __slots__ = ('kind', 'val', 'conds', 'redo', 'ser0', 'nf0', 'decs', 'dec', 'fin')

    def __init__(self, kind, val, conds, redo, ser0, nf0, decs, dec):
        self.dec = dec            # [(choice, heap serial when it was taken)]
        self.fin = None
        self.decs = decs          # the decisions that lead to this outcome: exclude every other
        self.kind = kind
        self.val = val
        self.conds = conds
        self.redo = redo
        self.ser0 = ser0
        self.nf0 = nf0

    def common(self, other):
        """heap serial up to which the objects of both paths are the same"""
        for (v, s), (w, _) in zip(self.dec, other.dec):
            if v != w:
                return s
        n, m = len(self.dec), len(other.dec)
        if n != m:                # one path left where the other one went on (conc_loop)
            return self.dec[m][1] if n > m else other.dec[n][1]
        raise Unsupported('two paths with the same decisions')

    @property
    def pc(self):
        return And(*self.conds)

    @property
    def guard(self):
        return And(*self.decs)


class Lemma:
    __slots__ = ('guard', 'vars', 'body', 'sorts')

    def __init__(self, guard, vars, body):
        self.guard = guard
        self.vars = vars
        self.body = body
        self.sorts = [v.sort() for v in vars]


lstr = z3.Function('lstr', I, B)      # every element of the list is a str

_KEYF = {'dhas', 'dget', 'lhas', 'didx', 'lidx'}
_IDXF = {'lnth', 'dkey'}


class Ctx:
    def __init__(self, timeout_ms=20000, max_paths=4000, deadline=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.frames = []
        self.pc = []
        self.trail = []
        self.lemmas = []
        self.kterms = {}
        self.iterms = {}
        self.terms_log = []
        self.apps = {}        # app ast id -> app  (dhas/dlen/... applications)
        self.nfresh = 0
        self.levels = []
        self.max_paths = max_paths
        self.npaths = 0
        self.nchecks = 0
        self.nhits = 0
        self.nfreshsolve = 0
        self.model = None
        self.quick_ms = 40
        self.feas_ms = 2500         # feasibility of a path: unknown counts as feasible
        self.quickfail = 0
        self.alldec = False
        self.solver_s = 0.0
        self.deadline = deadline
        self.ninst = 0
        self.hooks = []       # callables(app) -> formula or None : axiom instances
        self.keep = []
        self._scan_seen = {}
        self._inst_seen = set()
        self._newapps = []
        self.dirty = False
        self.fresh_log = {}
        self.strk = {}          # bases whose keys are texts
        self.flog = []
        self.pcset = {}
        self.ordered = {}
        self.lazy = {}        # (mapping, key) -> fact added when the entry is first mentioned
        self.byd = {}

    # ---- replay
    def _replay(self, what):
        if self.frames:
            fr = self.frames[-1]
            if fr.pos < len(fr.log):
                e = fr.log[fr.pos]
                fr.pos += 1
                if e[0] != what:
                    raise Unsupported('replay out of step (%s/%s)' % (e[0], what))
                return e
        return None

    def _logit(self, e):
        if self.frames:
            fr = self.frames[-1]
            fr.log.append(e)
            fr.pos = len(fr.log)

    def alloc(self, cls):
        e = self._replay('obj')
        if e is None:
            return None
        if type(e[1]) is not cls:
            raise Unsupported('replay out of step (%s/%s)' % (type(e[1]).__name__, cls.__name__))
        return e[1]

    def alloced(self, o):
        self._logit(('obj', o))

    # ---- fresh symbols
    def fresh(self, name, sort):
        e = self._replay('sym')
        if e is not None:
            x = e[1]
            if x.sort() != sort:
                raise Unsupported('replay out of step (symbol %s)' % name)
        else:
            self.nfresh += 1
            x = z3.Const('%s!%d' % (name, self.nfresh), sort)
            self._logit(('sym', x))
        self.flog.append(x)
        return x

    def _raw(self, name, sort):
        """symbol internal to the solver's view of a hypothesis"""
        self.nfresh += 1
        return z3.Const('%s!%d' % (name, self.nfresh), sort)

    def fval(self, name='v'):
        return self.fresh(name, Val)

    # ---- solver
    def _check(self, ms=None):
        """satisfiability of the current hypotheses; a model already known to satisfy every
        one of them answers without a solver call"""
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget for this obligation exhausted')
        if self.model is not None:
            self.nhits += 1
            return z3.sat
        t = time.time()
        r = z3.unknown
        if self.quickfail < 4 or self.nchecks % 16 == 0:
            self.solver.set('timeout', min(self.quick_ms, self.timeout_ms))
            r = self.solver.check()
            self.quickfail = self.quickfail + 1 if r == z3.unknown else 0
        if r == z3.sat:
            self.model = self.solver.model()
        elif r == z3.unknown:
            # the incremental core is slow on large string problems: start afresh
            s = z3.Solver()
            s.set('timeout', ms or self.feas_ms)
            s.add(*self.solver.assertions())
            r = s.check()
            if r == z3.sat:
                self.model = s.model()
            self.nfreshsolve += 1
        self.nchecks += 1
        self.solver_s += time.time() - t
        return r

    def push(self):
        self.levels.append((len(self.pc), len(self.lemmas), len(self.terms_log), self.model))
        self.solver.push()

    def pop(self):
        npc, nl, nt, model = self.levels.pop()
        if model is not None:
            self.model = model      # otherwise a model of more hypotheses is one of fewer
        self.solver.pop()
        del self.pc[npc:]
        del self.lemmas[nl:]
        for (d, i) in self.terms_log[nt:]:
            d.pop(i, None)
        del self.terms_log[nt:]

    def sadd(self, g):
        self.solver.add(g)
        if self.model is not None:
            if self.has_q(g) or not z3.is_true(self.model.eval(g, model_completion=True)):
                self.model = None

    # ---- hypotheses
    def assume(self, f, dec=False):
        f = _norm(f)
        if f is True:
            return
        if (dec or self.alldec) and self.frames:
            self.frames[-1].decs.append(f)
        if f is False:
            self.pc.append(F)
            self.sadd(F)
            raise PathEnd()
        self.pc.append(f)
        self._note_pc(f)
        self._add(f)

    def _note_pc(self, f):
        i = f.get_id()
        if i not in self.pcset:
            self.pcset[i] = f
            self.terms_log.append((self.pcset, i))
            if z3.is_and(f):
                for x in f.children():
                    self._note_pc(x)

    def _add(self, f):
        g = self.prep(f)
        todo = [g]
        while todo:
            g = todo.pop()
            self.sadd(g)
            new = self.scan(g)
            todo.extend(self.instances(new))

    # -- quantifier handling
    def has_q(self, f):
        return _has_q(f, {})

    def prep(self, f):
        if not self.has_q(f):
            return f
        return self._nnf(f, True)

    def _nnf(self, f, pos):
        if not self.has_q(f):
            return f if pos else z3.Not(f)
        if z3.is_quantifier(f):
            vs = [self._raw('q', f.var_sort(i)) for i in range(f.num_vars())]
            body = z3.substitute_vars(f.body(), *reversed(vs))
            if f.is_forall() == pos:
                g = self._raw('lg', B)
                nb = body if pos else z3.Not(body)
                self.lemmas.append(Lemma(g, vs, nb))
                self.dirty = True
                return g
            # existential: skolem constants
            return self._nnf(body, pos)
        k = f.decl().kind()
        ch = f.children()
        if k == z3.Z3_OP_NOT:
            return self._nnf(ch[0], not pos)
        if k == z3.Z3_OP_AND:
            xs = [self._nnf(c, pos) for c in ch]
            return z3.And(*xs) if pos else z3.Or(*xs)
        if k == z3.Z3_OP_OR:
            xs = [self._nnf(c, pos) for c in ch]
            return z3.Or(*xs) if pos else z3.And(*xs)
        if k == z3.Z3_OP_IMPLIES:
            a, b = ch
            if pos:
                return z3.Or(self._nnf(a, False), self._nnf(b, True))
            return z3.And(self._nnf(a, True), self._nnf(b, False))
        if k == z3.Z3_OP_ITE:
            c, a, b = ch
            return z3.And(z3.Or(self._nnf(c, False), self._nnf(a, pos)),
                          z3.Or(self._nnf(c, True), self._nnf(b, pos)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and ch[0].sort() == B:
            a, b = ch
            if pos:
                return z3.And(z3.Or(self._nnf(a, False), self._nnf(b, True)),
                              z3.Or(self._nnf(a, True), self._nnf(b, False)))
            return z3.And(z3.Or(self._nnf(a, True), self._nnf(b, True)),
                          z3.Or(self._nnf(a, False), self._nnf(b, False)))
        t = self._qite(f)
        if t is not None:
            # an alternative whose condition is quantified, inside an atom
            c, a, b = t.children()
            return self._nnf(z3.If(c, z3.substitute(f, (t, a)), z3.substitute(f, (t, b))), pos)
        raise Unsupported('quantifier under %s' % f.decl().name())

    def _qite(self, f):
        stack = list(f.children())
        while stack:
            t = stack.pop()
            if not self.has_q(t) or not z3.is_app(t):
                continue
            if t.decl().kind() == z3.Z3_OP_ITE and t.sort() != B and self.has_q(t.arg(0)):
                return t
            stack.extend(t.children())
        return None

    def _lem_inst(self, lem, new):
        """instances of lem over known terms, at least one taken from `new` (None: any)"""
        out = []
        pools = []
        for s in lem.sorts:
            if s == Val:
                pools.append(list(self.kterms.values()))
            elif s == I:
                pools.append(list(self.iterms.values()))
            else:
                pools.append([])
        if len(pools) == 1:
            combos = [(t,) for t in pools[0]]
        else:
            combos = [(a, b) for a in pools[0] for b in pools[1]]
        for c in combos:
            key = (lem.guard.get_id(),) + tuple(t.get_id() for t in c)
            if key in self._inst_seen:
                continue
            if new is not None and not any(t.get_id() in new for t in c):
                continue
            out.append((key, c, lem))
        return out

    def scan(self, f):
        """collect key/index terms of f not seen on this path; returns set of new term ids
        and the axiom instances they trigger"""
        new = set()
        stack = [f]
        seen = set()
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(t) or not z3.is_app(t):
                continue
            if i in self.apps:
                continue
            self.apps[i] = t
            self.terms_log.append((self.apps, i))
            n = t.decl().name()
            if n in ('lhas', 'lidx') and z3.is_app(t.arg(1)) and t.arg(1).decl().name() == 'lnth' and t.arg(1).arg(0).eq(t.arg(0)):
                pass        # an element of its own list: no term of interest (instances would not end)
            elif n in _KEYF:
                self._note(self.kterms, t.arg(1), new)
            elif n in _IDXF and not (z3.is_app(t.arg(1)) and t.arg(1).decl().name() == 'didx'):
                self._note(self.iterms, t.arg(1), new)
            elif n in ('str.substr', 'seq.extract', 'str.at', 'seq.at') and (
                    t.num_args() == 2 or z3.is_int_value(t.arg(2)) and t.arg(2).as_long() == 1):
                self._note(self.iterms, t.arg(1), new)
            if n in _AXF:
                self._newapps.append(t)
            stack.extend(t.children())
        return new

    def _note(self, pool, t, new):
        i = t.get_id()
        if i not in pool:
            pool[i] = t
            self.terms_log.append((pool, i))
            new.add(i)

    def instances(self, new):
        out = []
        # structural axioms
        na, self._newapps = self._newapps, []
        for t in na:
            out.extend(axioms(t, self))
        if not new and not self.dirty:
            return out
        self.dirty = False
        for lem in list(self.lemmas):
            for key, c, lm in self._lem_inst(lem, None):
                self._inst_seen.add(key)
                self.ninst += 1
                if self.ninst % 200 == 0 and self.deadline and time.time() > self.deadline:
                    raise Budget('time (instantiation)')
                self.terms_log.append((_SetPop(self._inst_seen), key))
                b = z3.substitute(lm.body, *[(v, t) for v, t in zip(lm.vars, c)])
                if b.num_args() < 4:
                    sb = z3.simplify(b)
                    if z3.is_true(sb):
                        continue
                inst = z3.Or(z3.Not(lm.guard), b)
                if self.has_q(inst):
                    inst = self._nnf(inst, True)
                out.append(inst)
        return out

    # ---- decisions
    def feasible(self, f=None):
        if f is None:
            return self._check() != z3.unsat
        f = _norm(f)
        if f is True:
            return self._check() != z3.unsat
        if f is False:
            return False
        self.push()
        try:
            self._add(f)
            return self._check() != z3.unsat
        finally:
            self.pop()

    def entails(self, f):
        f = _norm(f)
        if f is True:
            return True
        if f is False:
            return not self.feasible()
        return not self.feasible(Not(f))

    def branch(self, c):
        c = _norm(c)
        if c is True or c is False:
            return c
        fr = self.frames[-1]
        if fr.n < len(fr.prefix):
            v, alt, _, real, ser = fr.prefix[fr.n]
        else:
            ser = heap.serial()
            nc = Not(c)
            if c.get_id() in self.pcset:
                v, alt = True, False
            elif nc.get_id() in self.pcset:
                v, alt = False, False
            elif not self.feasible(c):
                v, alt = False, False
            elif not self.feasible(nc):
                v, alt = True, False
            else:
                v, alt = True, True
            real = alt
        fr.n += 1
        fr.dec.append((v, alt, fr.pos, real, ser))
        self.assume(c if v else Not(c), real)
        return v

    def choose(self, n):
        """pick one of n alternatives (their conditions are assumed by the caller)"""
        if n == 1:
            return 0
        fr = self.frames[-1]
        ch = self.fresh('choice', I)
        if fr.n < len(fr.prefix):
            v, ser = fr.prefix[fr.n][0], fr.prefix[fr.n][4]
        else:
            v, ser = 0, heap.serial()
        fr.n += 1
        fr.dec.append((v, (v + 1 < n), fr.pos, True, ser))
        self.assume(ch == v, True)
        return v

    def prove(self, goal):
        """('unsat'|'sat'|'unknown', model)"""
        goal = _norm(goal)
        if goal is True:
            return 'unsat', None
        self.push()
        try:
            self._add(zb(Not(goal)))
            r = self._check(self.timeout_ms)
            if r == z3.sat:
                # the incremental core with strings and quantifiers is not relied on for 'sat'
                s = z3.Solver()
                s.set('timeout', self.timeout_ms)
                s.add(*self.solver.assertions())
                t = time.time()
                r2 = s.check()
                self.solver_s += time.time() - t
                if r2 == z3.unsat:
                    return 'unsat', None
                return 'sat', (s.model() if r2 == z3.sat else self.model)
            return str(r), None
        finally:
            self.pop()

    # ---- trail
    def record(self, undo, redo, what):
        self.trail.append((undo, redo, what))

    def undo_to(self, mark):
        while len(self.trail) > mark:
            self.trail.pop()[0]()

    def explore(self, thunk, signals):
        """run thunk on every path; returns list of Outcome (effects undone)."""
        e = self._replay('explore')
        if e is not None:
            self.flog.extend(e[2])
            return list(e[1])
        nf = len(self.flog)
        out = []
        prefix = []
        log = []
        while True:
            fr = Frame(prefix, log)
            self.frames.append(fr)
            npc = len(self.pc)
            tm = len(self.trail)
            ser0 = heap.serial()
            nf0 = len(self.flog)
            self.push()
            kind = None
            val = None
            if not out and not prefix:
                start = ser0
            try:
                try:
                    val = thunk()
                    kind = 'ok'
                except signals as s:
                    kind = type(s).__name__
                    val = s
                except PathEnd:
                    kind = None
                if kind is not None:
                    self.npaths += 1
                    if self.npaths > self.max_paths:
                        raise Budget('more than %d paths' % self.max_paths)
                    out.append(Outcome(kind, val, list(self.pc[npc:]),
                                       list(self.trail[tm:]), start, nf0, fr.decs,
                                       [(d[0], d[4]) for d in fr.dec]))
            finally:
                self.frames.pop()
                self.undo_to(tm)
                self.pop()
            dec = fr.dec
            while dec and not dec[-1][1]:
                dec.pop()
            if not dec:
                break
            v, _, lp, _, ser = dec.pop()
            log = fr.log[:lp]
            if v is True:
                prefix = dec + [(False, False, lp, True, ser)]
            else:
                prefix = dec + [(v + 1, True, lp, True, ser)]
                # the alt flag of a choice is recomputed by choose()
        self._logit(('explore', list(out), self.flog[nf:]))
        return out


class _SetPop:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def pop(self, k, d=None):
        self.s.discard(k)


def _has_q(f, memo):
    i = f.get_id()
    r = _HQ.get(i)
    if r is not None:
        return r[0]
    if z3.is_quantifier(f):
        v = True
    else:
        v = any(_has_q(c, memo) for c in f.children())
    _HQ[i] = (v, f)
    return v


_HQ = {}

_AXF = {'dhas', 'dkey', 'dlen', 'llen', 'lnth', 'lhas', 'Dict_', 'List_', 'strlow', 'didx', 'dget'}


class _ListPop:
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l

    def pop(self, k, d=None):
        self.l.pop()


def _ordax(d, k, has):
    return z3.Implies(has, z3.And(didx(d, k) >= 0, didx(d, k) < dlen(d), dkey(d, didx(d, k)) == k))


def axioms(t, ctx):
    n = t.decl().name()
    if n == 'dlen':
        return [t >= 0]
    if n == 'llen':
        return [t >= 0]
    if n == 'dhas':
        d, k = t.arg(0), t.arg(1)
        out = [z3.Implies(t, dlen(d) > 0)]
        if d.get_id() in ctx.ordered:
            out.append(_ordax(d, k, t))
        else:
            ctx.byd.setdefault(d.get_id(), []).append(t)
            ctx.terms_log.append((_ListPop(ctx.byd[d.get_id()]), None))
        return out
    if n == 'dget':
        f = ctx.lazy.get((t.arg(0).get_id(), t.arg(1).get_id()))
        if f is None:
            return [z3.Not(Val.is_Obj_(t))]
        return [z3.Not(Val.is_Obj_(t)), ctx.prep(f[0])]
    if n == 'dkey':
        d, i = t.arg(0), t.arg(1)
        if z3.is_app(i) and i.decl().name() == 'didx':
            return []
        pre = []
        if d.get_id() not in ctx.ordered:
            # positions of keys matter for this mapping: relate them to membership
            ctx.ordered[d.get_id()] = d
            ctx.terms_log.append((ctx.ordered, d.get_id()))
            pre = [_ordax(d, a.arg(1), a) for a in ctx.byd.get(d.get_id(), ())]
        return pre + [z3.Implies(z3.And(i >= 0, i < dlen(d)),
                           z3.And(dhas(d, t), didx(d, t) == i))]
    if n == 'lhas':
        l, v = t.arg(0), t.arg(1)
        ix = lidx(l, v)
        out = [z3.Implies(t, z3.And(llen(l) > 0, ix >= 0, ix < llen(l), zb(py_eq(lnth(l, ix), v)))),
               z3.Implies(z3.And(lstr(l), t), Val.is_Str_(v))]
        return out
    if n == 'lnth':
        l, i = t.arg(0), t.arg(1)
        inr = z3.And(i >= 0, i < llen(l))
        out = [z3.Implies(z3.And(lstr(l), inr), Val.is_Str_(t)), z3.Not(Val.is_Obj_(t))]
        if not (z3.is_app(i) and i.decl().name() == 'lidx'):
            out.append(z3.Implies(inr, lhas(l, t)))
        return out
    return []


def _second(self, goal):
    """retry an unknown answer: fresh solver, longer limit, then cvc5"""
    goal = _norm(goal)
    self.push()
    try:
        self._add(zb(Not(goal)))
        fs = list(self.solver.assertions())
        s = z3.Solver()
        s.set('timeout', self.timeout_ms * 2)
        s.set('random_seed', 17)
        s.add(*fs)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
        return 'unknown', None
    finally:
        self.pop()


Ctx.second_opinion = _second
