"""Obligation registry, proof runs, replay, bounded search, evidence."""
import json
import logging
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'


def setup_path():
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    for p in (SITE, os.path.join(REPO, 'src')):
        if p in sys.path:
            sys.path.remove(p)
    sys.path[:0] = [os.path.join(REPO, 'src')]
    sys.path.append(SITE)


OBS = []


class Ob:
    """One proof obligation: a harness over real functions, with its contracts."""

    def __init__(self, prop, name, fn, contracts=(), timeout=240, max_paths=20000, allow_events=False,
                 need=(), search=300, vc_ms=20000, tier='quick', bounded=None, hints=None, assumptions=(), functions=()):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.contracts = contracts
        self.timeout = timeout
        self.max_paths = max_paths
        self.allow_events = allow_events
        self.search = search
        self.need = tuple(need)      # labels of h.cover that some path must reach
        self.vc_ms = vc_ms
        self.tier = tier
        self.bounded = bounded
        self.assumptions = list(assumptions)
        self.functions = list(functions)
        # results
        self.vcs = []
        self.fails = []
        self.covers = set()
        self.wit = {'replayed': 0, 'agree': 0, 'skipped': 0, 'diverged': 0}
        self.divs = []

    @property
    def id(self):
        return '%s/%s' % (self.prop, self.name)

    # called by SymH.check
    def check(self, h, label, f):
        t = time.time()
        r, model = h.c.prove(f)
        if r == 'unknown':
            r2, m2 = h.c.second_opinion(f)
            if r2 != 'unknown':
                r, model = r2, m2
        self.vcs.append((label, r, round(time.time() - t, 3)))
        if r != 'unsat':
            self.fails.append({'label': label, 'solver': r, 'path': list(h.calls) + list(h.notes)})
            inp = None
            if r == 'sat' and model is not None:
                self.try_models(h, label, f, model)

    def try_models(self, h, label, f, model):
        """replay the countermodel on the real code"""
        from .concretize import Conc
        fail = self.fails[-1]
        if sum(1 for x in self.fails if x.get('tries')) > 6:
            return
        tries = 0
        c = h.c
        from .vals import Not, zb
        c.push()
        try:
            c._add(zb(Not(f)))
            for k in range(4):
                tries += 1
                try:
                    inp = Conc(h, model).inputs()
                except Exception as e:
                    fail.setdefault('concretize', repr(e))
                    inp = None
                if inp is not None:
                    bad = native_run(self, inp)
                    if isinstance(bad, dict) and bad['failed']:
                        fail['confirmed'] = bad
                        break
                    fail['last'] = bad
                # another model: different values for the inputs
                import z3
                blk = []
                for name, kind, p in h.inputs:
                    if kind == 'val':
                        blk.append(p != model.eval(p, model_completion=True))
                if not blk:
                    break
                c.sadd(z3.Or(*blk))
                if c._check() != z3.sat:
                    break
                model = c.model
        finally:
            c.pop()
        fail['tries'] = tries


def obligation(prop, name=None, **kw):
    def deco(fn):
        o = Ob(prop, name or fn.__name__, fn, **kw)
        OBS.append(o)
        return fn
    return deco


def native_run(ob, inp=None, rng=None):
    """run the harness natively; dict(failed=[labels], ...) or None when the precondition does not hold"""
    from .native import NatH, Snap
    from .harness import Skip
    from . import models
    scratch = None
    if rng is not None:
        # how far inputs stay with the intended (first) hints in this run
        rng.calm = rng.choice([0, .6, .9, .97])
    h = models.NatHX(inp, rng)
    try:
        with Alarm(20):
            models.native_setup(h)
            ob.fn(h)
    except Skip:
        if h.failed:
            return {'failed': h.failed, 'calls': h.calls, 'inputs': h.used}
        return None
    except TimeoutError:
        return {'failed': [], 'calls': h.calls, 'inputs': h.used, 'error': 'timeout'}
    except Exception as e:
        tb = traceback.format_exc(limit=-4)
        return {'failed': list(h.failed), 'calls': h.calls, 'inputs': h.used, 'error': tb}
    finally:
        h.cleanup()
    return {'failed': h.failed, 'calls': h.calls, 'inputs': h.used, 'labels': h.labels}


class Alarm:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def on(*a):
            raise TimeoutError()
        self.old = signal.signal(signal.SIGALRM, on)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def prove_ob(ob, tier, seed):
    """all paths of one obligation"""
    from .ctx import Ctx, Unsupported, Budget, PathEnd
    from .calls import Interp
    from .harness import SymH
    from .interp import SIGNALS, Signal
    from .concretize import Conc
    from . import heap, models
    t0 = time.time()
    res = {'id': ob.id, 'prop': ob.prop, 'name': ob.name}
    ctx = Ctx(timeout_ms=ob.vc_ms, max_paths=ob.max_paths, deadline=t0 + ob.timeout * (2 if tier == 'thorough' else 1))
    heap.CUR[0] = ctx
    interp = Interp(ctx)
    models.install(interp)
    interp.used_contracts = set()
    interp.spech = SymH(interp, ob)
    for c in ob.contracts:
        models.use_contract(interp, c)
    wits = []

    def thunk():
        h = SymH(interp, ob)
        ob.h = h
        n0 = len(ob.vcs)
        ob.fn(h)
        if not ob.allow_events and interp.events:
            ob.check(h, 'frame: ' + interp.events[0][0], False)
        # witness of the path
        if ctx._check() == z3.sat:
            m = ctx.model
            for l in h.labels:
                ob.covers.add(l)
            if len(wits) < (400 if tier == 'thorough' else 60):
                try:
                    wits.append((Conc(h, m).inputs(), list(h.calls)))
                except Exception as e:
                    ob.wit['skipped'] += 1
                    ob.divs.append('concretize: %r' % (e,))
        else:
            if not set(ob.need) <= ob.covers and ctx._check(5000) != z3.unsat:
                ob.covers |= set(h.labels)
            ob.wit.setdefault('nowitness', 0)
            ob.wit['nowitness'] += 1
        return None
    import z3
    err = None
    try:
        outs = ctx.explore(thunk, SIGNALS)
        res['paths'] = len(outs)
        for o in outs:
            if o.kind != 'ok':
                err = 'harness raised %s' % getattr(o.val, 'exc', o.kind)
    except Unsupported as e:
        err = 'outside the verified subset: %s' % (e,)
    except Budget as e:
        err = 'budget: %s' % (e,)
    except RecursionError:
        err = 'recursion limit'
    except z3.Z3Exception as e:
        err = 'solver: %s' % (e,)
    except Exception as e:
        err = 'engine: ' + traceback.format_exc(limit=-6)
    if not ob.vcs and err is None:
        err = 'no verification condition was generated'
    if err is None:
        for l in ob.need:
            if l not in ob.covers:
                err = 'cover: no path reaches "%s"' % l
    res['error'] = err
    res['vcs'] = len(ob.vcs)
    res['discharged'] = sum(1 for v in ob.vcs if v[1] == 'unsat')
    res['labels'] = sorted({v[0] for v in ob.vcs})
    res['solver_s'] = round(ctx.solver_s, 3)
    res['checks'] = ctx.nchecks
    res['explored'] = ctx.npaths
    res['functions'] = sorted(f for f in interp.functions_seen if not f.startswith('contracts.'))
    res['contracts_used'] = sorted(interp.used_contracts)
    res['assumed'] = sorted(interp.assumed) + ob.assumptions
    res['covers'] = sorted(ob.covers)
    # native replay of every path witness
    wf = []
    tw = time.time()
    for inp, calls in wits:
        if time.time() - tw > 30:
            break
        b = native_run(ob, inp)
        if b is None:
            ob.wit['skipped'] += 1
            continue
        ob.wit['replayed'] += 1
        if b['failed']:
            wf.append({'label': b['failed'][0], 'solver': 'witness', 'confirmed': b, 'path': calls})
        elif b['calls'] == calls and not b.get('error'):
            ob.wit['agree'] += 1
        else:
            ob.wit['diverged'] += 1
            if len(ob.divs) < 8:
                ob.divs.append({'inputs': enc(inp), 'symbolic': calls, 'native': b['calls'], 'error': b.get('error')})
    fails = ob.fails + wf
    # bounded search where the proof failed without a replayed input
    need = (err is not None or fails) and not any(f.get('confirmed') for f in fails)
    nsearch = 0
    if need or tier == 'thorough':
        rng = random.Random(seed * 7919 + 13)
        ts = time.time()
        budget = getattr(ob, 'search_s', 60) if need else 10
        n = 0
        while time.time() - ts < budget and n < ob.search * (10 if need else 3):
            n += 1
            b = native_run(ob, None, rng)
            if b and b['failed']:
                fails.append({'label': b['failed'][0], 'solver': 'search', 'confirmed': b, 'path': b['calls']})
                break
        nsearch = n
    res['searched'] = nsearch
    res['witness'] = ob.wit
    res['divergences'] = ob.divs[:8]
    res['wall_s'] = round(time.time() - t0, 3)
    for f in fails:
        f.pop('last', None) if f.get('confirmed') else None
        for k in ('confirmed', 'last'):
            if f.get(k):
                f[k] = {kk: (enc(vv) if kk == 'inputs' else vv) for kk, vv in f[k].items()}
    res['fails'] = fails
    res['ok'] = err is None and not fails
    return res


def enc(v):
    """JSON-able encoding of native inputs"""
    if isinstance(v, dict):
        return {'#d': [[enc(k), enc(x)] for k, x in v.items()]}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, bytes):
        return {'#b': v.decode('latin-1')}
    if isinstance(v, (str, int, float, type(None), bool)):
        return v
    if hasattr(v, '_dict'):
        return {'#m': [type(v).__module__, type(v).__name__, enc(v._dict)]}
    return {'#r': repr(v)}


def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        if '#d' in v:
            return {dec(k): dec(x) for k, x in v['#d']}
        if '#b' in v:
            return v['#b'].encode('latin-1')
        if '#m' in v:
            import importlib
            from .native import newmsg
            m, n, d = v['#m']
            return newmsg(getattr(importlib.import_module(m), n), dec(d))
        return None
    return v


def child(ob, tier, seed, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        sys.setrecursionlimit(20000)
        import threading
        out = []

        r = prove_ob(ob, tier, seed)
    except MemoryError:
        r = {'id': ob.id, 'prop': ob.prop, 'name': ob.name, 'ok': False, 'error': 'out of memory', 'fails': [],
             'vcs': 0, 'discharged': 0}
    except BaseException as e:
        r = {'id': ob.id, 'prop': ob.prop, 'name': ob.name, 'ok': False, 'fails': [], 'vcs': 0, 'discharged': 0,
             'error': 'engine: ' + traceback.format_exc(limit=-6)}
    conn.send_bytes(json.dumps(r, default=repr).encode())
    conn.close()


def run_all(obs, tier, seed, jobs=8, verbose=False):
    """every obligation in a process of its own.  Once obligations have failed the rest is cut
    short: the verdict stands, and an answer has to come in time"""
    ctxm = multiprocessing.get_context('fork')
    pend = list(obs)
    run = {}
    done = []
    T0 = time.time()
    limit = 780 if tier == 'quick' else 6000

    def skip(ob, why):
        done.append({'id': ob.id, 'prop': ob.prop, 'name': ob.name, 'ok': False, 'fails': [], 'vcs': 0, 'discharged': 0,
                     'error': why, 'skipped': True})
    while pend or run:
        bad = [r for r in done if not r['ok'] and not r.get('skipped')]
        conf = sum(1 for r in bad if any(f.get('confirmed') for f in r['fails']))
        el = time.time() - T0
        if (conf >= 12 or conf and el > 240 or bad and el > 480 or el > limit) and pend or el > limit:
            why = 'not run: other obligations failed' if bad else 'budget: time for the whole check used up'
            for ob in pend:
                skip(ob, why)
            pend = []
            if el > limit or conf:
                for p, (ob, a, t) in list(run.items()):
                    p.kill()
                    p.join()
                    a.close()
                    skip(ob, why)
                run = {}
                break
        while pend and len(run) < jobs:
            ob = pend.pop(0)
            ob.search_s = 4 if conf else 60 if len(bad) < 8 else 20 if len(bad) < 24 else 4
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=child, args=(ob, tier, seed, b))
            p.start()
            b.close()
            run[p] = (ob, a, time.time())
        time.sleep(0.01)
        for p, (ob, a, t) in list(run.items()):
            r = None
            if a.poll():
                try:
                    r = json.loads(a.recv_bytes())
                except EOFError:
                    r = None
                p.join(5)
            elif not p.is_alive():
                p.join()
            elif time.time() - t > ob.timeout * (2 if tier == 'thorough' else 1) + 130:
                p.kill()
                p.join()
            else:
                continue
            if r is None:
                r = {'id': ob.id, 'prop': ob.prop, 'name': ob.name, 'ok': False, 'fails': [], 'vcs': 0,
                     'discharged': 0, 'error': 'worker ended without a result (exit %s)' % p.exitcode}
            a.close()
            del run[p]
            done.append(r)
            if verbose:
                show(r)
    return done


def show(r):
    print('%-8s %-60s vcs %d/%d paths %s solver %.1fs wall %.1fs %s' % (
        'ok' if r['ok'] else 'FAIL', r['id'], r['discharged'], r['vcs'], r.get('paths'), r.get('solver_s', 0),
        r.get('wall_s', 0), r.get('witness')), flush=True)
    if r.get('error'):
        print('     error:', r['error'])
    for f in r['fails'][:6]:
        print('     fail:', f['label'], '|', f['solver'], '|', f['path'], '| confirmed' if f.get('confirmed') else
              '| not replayed', f.get('concretize', ''))
        c = f.get('confirmed') or f.get('last')
        if c:
            print('           ', json.dumps(c.get('inputs'))[:600], c.get('calls'), (c.get('error') or '')[-300:])
    for d in r.get('divergences', [])[:3]:
        print('     diverged:', json.dumps(d)[:700])
