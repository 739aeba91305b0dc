"""Obligations, findings, known findings, evidence."""
import json
import os
import resource
import selectors
import signal
import sys
import time
import traceback

from .loader import Project, AnchorMissing, REPO, Module
from .gvn import Engine, Unsupported
from . import terms as T
from . import witness
from . import arith
from .model import STDTYPES

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings():
    """{property: {key: text}} of recorded, unrepaired defects"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if not line.startswith('known: '):
                continue
            head, _, text = line[7:].partition(' -- ')
            d = dict(x.split('=', 1) for x in head.split(' ', 1)) if False else {}
            prop = head.split()[0].split('=', 1)[1]
            key = head.split('key=', 1)[1].strip()
            out.setdefault(prop, {})[key] = text
    return out


class Ctx(object):
    def __init__(self, pid, tier='quick', project=None):
        self.pid = pid
        self.tier = tier
        self.p = project or Project()
        self.obs = []          # (rule, construct, ok, msg, loc)
        self.notes = []
        self.functions = set()
        self.sites = 0
        self.rules = {}
        self.nodes = 0

    # -- analysis helpers
    def engine(self, types=None, **kw):
        t = dict(STDTYPES)
        t.update(types or {})
        e = Engine(self.p, types=t, **kw)
        self._engines = getattr(self, '_engines', [])
        self._engines.append(e)
        return e

    def cls(self, q):
        return self.p.cls(q)

    def func(self, q):
        return self.p.func(q)

    def spec(self, source, name='spec'):
        """a module of specification functions interpreted in the same abstract
        domain as the code (never executed)"""
        head = ('import numpy as np\nfrom pytracer import *\nimport pytracer.geometry as geo\n'
                'import pytracer.utility as util\n')
        return Module(self.p, 'sa_spec_' + name, '<spec %s>' % name, head + source)

    CRASH = ('name', 'modattr', 'attr', 'arity', 'none-operand', 'none-attr', 'unpack', 'abstract', 'call', 'import',
             'readonly', 'format', 'index', 'unbound')

    def prove(self, rule, spec, fname=None, construct=None, loc='', types=None, crash=True, extra_lossy=(), given=None,
              replace=None, inner=None, **kw):
        """every condition returned by the specification function must be TRUE
        in the abstract domain wherever the function returns"""
        mod = spec if isinstance(spec, Module) else self.spec(spec, fname or 'x')
        names = [fname] if fname else list(mod.functions)
        out = []
        for fn in names:
            fi = mod.functions[fn]
            con = construct or fn
            with self.guard(rule, con, loc):
                e = self.engine(types=types, **kw)
                # calls to the named functions are given the meaning of a specification function
                e.replace = {q: mod.functions[n] for q, n in (replace or {}).items()}
                e.inner = {q: mod.functions[n] for q, n in (inner or {}).items()}
                for q in list(e.replace) + list(e.inner):
                    if ':' not in q:
                        self.func(q)
                try:
                    s = e.run(fi, given=given)
                except (Unsupported, T.Blowup, RecursionError, Budget, MemoryError):
                    # certain failures met before the limit
                    for kind, f, node, msg, pc in e.diags[:e.exact] if crash else ():
                        if kind in self.CRASH and f is not None and f.module is not mod and (
                                pc is T.TRUE or not T.lossy(pc) and witness.find(pc, trials=400)[0] is not None):
                            self.ob(rule, con, False, 'in %s: %s (when %s)' % (f.qual, msg, T.show(pc)[:160]), f.loc(node) if node is not None else loc)
                    raise
                self.last = (e, s)
                if crash:
                    for kind, f, node, msg, pc in e.diags:
                        if kind in self.CRASH and not T.unsat(pc):
                            if f is not None and f.module is mod and kind in ('name',):
                                raise AnchorMissing('%s: %s' % (con, msg))
                            if f is not None and f.module is mod and kind in ('none-attr', 'none-operand'):
                                continue        # covered by the clause that asks for a result
                            l = f.loc(node) if f is not None and node is not None else ''
                            q = f.qual if f is not None else '?'
                            if not T.lossy(pc) and pc is not T.TRUE and witness.find(pc, trials=400)[0] is None and (
                                    arith.unsat(pc) or witness.climb(pc) is None):
                                continue
                            self.ob(rule, con, None if T.lossy(pc) else False,
                                    'in %s: %s (when %s)' % (q, msg, T.show(pc)[:160]), l or loc)
                if s.ok is T.FALSE or T.unsat(s.ok):
                    self.ob(rule, con, False, 'the specified call never returns normally', loc)
                    continue
                cut = [f.qual for c, f in e.cuts if not T.unsat(c) and not arith.unsat(c)]
                if cut:
                    self.ob(rule, con, None, 'analysis limit: recursion of %s is not unfolded further' % cut[0], loc)
                    continue
                conds = self._conds(s)
                for nm, c in conds:
                    out.append(self.judge(rule, con if nm is None else '%s:%s' % (con, nm), c, s.ok, loc, extra_lossy))
        return out

    def prove_all(self, rule, mod, jobs):
        """independent proofs, each from the same initial tables, in parallel processes.
        jobs: (function name, keyword arguments of prove)"""
        import pickle
        todo, live, done = list(enumerate(jobs)), {}, {}
        width = max(1, min(8, os.cpu_count() or 1))
        sel = selectors.DefaultSelector()
        sys.stdout.flush()
        sys.stderr.flush()
        while todo or live:
            while todo and len(live) < width:
                k, (fn, kw) = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        n = len(self.obs)
                        self._engines = []
                        err = None
                        try:
                            self.prove(rule, mod, fn, **kw)
                        except AnchorMissing as x:
                            err = str(x)
                        fns, nodes = set(), 0
                        for e in self._engines:
                            fns |= e.fns_seen
                            nodes += e.nodes_seen
                        b = pickle.dumps((self.obs[n:], fns, nodes, err))
                        with os.fdopen(w, 'wb') as f:
                            f.write(b)
                    except BaseException:
                        code = 1
                    finally:
                        os._exit(code)
                os.close(w)
                live[r] = (k, pid, [])
                sel.register(r, selectors.EVENT_READ)
            for key, _ in sel.select():
                r = key.fd
                b = os.read(r, 1 << 20)
                if b:
                    live[r][2].append(b)
                    continue
                sel.unregister(r)
                os.close(r)
                k, pid, parts = live.pop(r)
                os.waitpid(pid, 0)
                try:
                    done[k] = pickle.loads(b''.join(parts))
                except Exception:
                    fn, kw = jobs[k]
                    done[k] = ([(rule, kw.get('construct') or fn, None, 'analysis limit: the proof process ended early', kw.get('loc', ''))],
                               set(), 0, None)
        err = None
        for k in sorted(done):
            obs, fns, nodes, e = done[k]
            self.obs += obs
            self.functions |= fns
            self.nodes += nodes
            err = err or e
        if err:
            raise AnchorMissing(err)

    def prove_spec(self, rule, mod, loc, kw=None, prefix='f_'):
        """every function of the specification whose name starts with the prefix"""
        kw = kw or {}
        opts = kw if callable(kw) else lambda fn: kw.get(fn, {})
        self.prove_all(rule, mod, [(fn, dict(opts(fn), construct=fn[len(prefix):], loc=loc)) for fn in mod.functions if fn.startswith(prefix)])

    def _conds(self, s):
        st = s.st
        conds, order = {}, []
        for v, g in T.guarded_leaves(s.ret):
            if isinstance(v, T.Ref) and st.heap.get(v.id) is not None and st.heap[v.id].kind == 'dict':
                parts = [(k.v, s.engine.truth(c, st)) for k, c in st.heap[v.id].f.items()]
            elif v is T.NONE and s.ret is not v:
                parts = [(None, T.FALSE)]
            else:
                parts = [(None, s.engine.truth(v, st))]
            for k, c in parts:
                if k not in conds:
                    order.append(k)
                conds[k] = T.band(conds.get(k, T.TRUE), T.bor(T.bnot(g), c))
        return [(k, conds[k]) for k in order]

    def judge(self, rule, con, c, ok, loc, extra_lossy=()):
        bad = T.band(ok, T.bnot(c))
        if bad is T.FALSE or T.unsat(bad):
            return self.ob(rule, con, True, '', loc)
        l = T.lossy(T.restrict(T.bnot(c), ok), extra_lossy)
        if l is not None:
            bad = T.decided_part(bad, extra_lossy)
            pt = None
            if bad is not T.FALSE and not T.unsat(bad) and not arith.unsat(bad):
                pt = witness.find(bad, ok)[0] or witness.climb(bad)
            if pt is None:
                return self.ob(rule, con, None, 'depends on a summarised value: %s' % (repr(l)[:120]), loc)
            return self.ob(rule, con, False, 'fails when %s  [separating point: %s]' % (
                T.show(T.restrict(bad, T.TRUE))[:600], witness.describe(pt, bad)), loc)
        pt, valid = witness.find(bad, ok)
        if pt is None and arith.unsat(bad):
            return self.ob(rule, con, True, '', loc)
        if pt is None:
            pt = witness.climb(bad)
        if pt is None:
            return self.ob(rule, con, None, 'normal forms differ but no separating point among %d' % valid, loc)
        return self.ob(rule, con, False, 'fails when %s  [separating point: %s]' % (
            T.show(T.restrict(bad, T.TRUE))[:600], witness.describe(pt, bad)), loc)

    def rule(self, name, text):
        self.rules[name] = text

    def analysed(self, *fis):
        for f in fis:
            self.functions.add(f if isinstance(f, str) else f.qual)

    def ob(self, rule, construct, ok, msg='', loc=''):
        """one obligation: ok is True (holds), False (violated) or None (not decided)"""
        self.obs.append((rule, construct, ok, msg, loc))
        return ok

    def require(self, what, n, floor):
        if n < floor:
            raise AnchorMissing('%s: %d instances, expected at least %d' % (what, n, floor))

    def guard(self, rule, construct, loc='', seconds=None):
        return _Guard(self, rule, construct, loc, seconds)


class Budget(BaseException):
    pass


def _expire(*a):
    raise Budget('time budget')


class _Guard(object):
    """undecided instead of crash for analysis limits inside one obligation"""
    SECONDS = 30         # of processor time, so that a loaded machine decides the same

    def __init__(self, ctx, rule, construct, loc, seconds=None):
        self.a = (ctx, rule, construct, loc)
        self.seconds = seconds or self.SECONDS

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _expire)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds * (4 if self.a[0].tier == 'thorough' else 1))
        return self

    def __exit__(self, et, ev, tb):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if et is not None and issubclass(et, (Unsupported, T.Blowup, RecursionError, Budget, MemoryError)):
            ctx, rule, construct, loc = self.a
            ctx.ob(rule, construct, None, 'analysis limit: %s %s' % (et.__name__, ev), loc)
            return True
        if et is not None and issubclass(et, Exception) and not issubclass(et, AnchorMissing):
            ctx, rule, construct, loc = self.a
            tb = traceback.extract_tb(tb)[-1]
            ctx.ob(rule, construct, None, 'analysis limit: internal %s %s at %s:%s' % (et.__name__, ev, os.path.basename(tb.filename), tb.lineno), loc)
            return True
        return False


def finish(ctx, level, explanation, wall):
    eng = getattr(ctx, '_engines', [])
    for e in eng:
        ctx.functions |= e.fns_seen
        ctx.nodes += e.nodes_seen
    known = known_findings().get(ctx.pid, {})
    viol, kn, und = [], [], []
    seen = set()
    for rule, con, ok, msg, loc in ctx.obs:
        if ok is None:
            und.append((rule, con, msg, loc))
            continue
        if ok:
            continue
        key = '%s|%s' % (rule, con)
        if key in known:
            if key not in seen:
                kn.append((key, known[key], msg, loc))
        else:
            if (key, msg) not in seen:
                viol.append((key, msg, loc))
        seen.add(key)
        seen.add((key, msg))
    n = len(ctx.obs)
    good = sum(1 for o in ctx.obs if o[2])
    byrule = {}
    for rule, con, ok, msg, loc in ctx.obs:
        r = byrule.setdefault(rule, {'obligations': 0, 'discharged': 0, 'undecided': 0, 'violated': 0, 'instances': []})
        r['obligations'] += 1
        r['discharged' if ok else ('undecided' if ok is None else 'violated')] += 1
        if len(r['instances']) < 40:
            r['instances'].append(con)
    cov = {
        'explanation': explanation,
        'obligations': n, 'discharged': good, 'undecided': len(und), 'violated': len(viol), 'known': len(kn),
        'modules_parsed': len(ctx.p.modules),
        'functions_analysed': len(ctx.functions),
        'functions': sorted(ctx.functions)[:400],
        'ast_nodes_interpreted': ctx.nodes,
        'rules': {k: dict(text=ctx.rules.get(k, ''), **v) for k, v in sorted(byrule.items())},
        'undecided_list': ['%s|%s: %s' % (a, b, c) for a, b, c, d in und][:60],
        'notes': ctx.notes[:60],
    }
    if level == 'proof':
        cov['checker_cmd'] = 'python3 -W ignore -m sa %s' % ctx.pid
        cov['trusted_base'] = 'CPython ast; the abstract interpreter and normal forms in /verif/sa; declared field types in sa/model.py'
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': cov, 'wall_s': round(wall, 3)}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ctx.pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %d obligations, %d hold, %d undecided, %d known, %d violated; %d functions analysed in %.1fs' % (
        ctx.pid, n, good, len(und), len(kn), len(viol), len(ctx.functions), wall))
    for a, b, c, dd in und[:20]:
        print('  undecided %s|%s %s' % (a, b, c[:200]))
    for key, text, msg, loc in kn:
        print('KNOWN-FINDING: property=%s %s %s' % (ctx.pid, key, text))
    if viol:
        rp = os.path.join(d, ctx.pid + '.violations.txt')
        with open(rp, 'w', encoding='utf-8') as f:
            for key, msg, loc in viol:
                f.write('%s\n  at %s\n  %s\n' % (key, loc, msg))
        for key, msg, loc in viol[:40]:
            print('  violated %s at %s: %s' % (key, loc, msg[:400]))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
        return 1
    return 0


def main(argv):
    import importlib
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    t = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        mod = importlib.import_module('sa.rules.' + pid.lower())
        ctx = Ctx(pid, tier)
        mod.check(ctx)
        if not ctx.obs:
            raise AnchorMissing('no obligation generated')
        return finish(ctx, getattr(mod, 'LEVEL', 'other'), mod.EXPLANATION.strip(), time.time() - t)
    except AnchorMissing as e:
        print('ANALYSIS-BROKEN property=%s anchor missing: %s' % (pid, e))
        return 3
    except SyntaxError as e:
        print('ANALYSIS-BROKEN property=%s cannot parse: %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 4
